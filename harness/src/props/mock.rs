//! P25 the test mock.
use crate::kit::run::take_panics;
use crate::kit::*;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use tower_layer::layer_fn;
use tower_test::assert_request_eq;
use tower_test::mock::{self, error::Closed, Handle, Mock, SendResponse, Spawn};

pub fn prop() -> Prop {
    Prop {
        id: "P25",
        rule: "seeded random interleavings of readiness checks, calls, clones, drops, allowances, scripted errors, receiving, answering and dropping of responders and of the handle, each step compared with an exact reference of the mock; non-trivial: a clone waited, was woken and accepted, a request was answered, and one was lost by a drop or scripted error",
        assumptions: &["readiness granted to several clones before any of them calls may exceed the allowance, as documented by each readiness promising that the next call succeeds"],
        scenarios: vec![
            Scenario::new("model", 4000, model),
            Scenario::new("asserts", 1000, asserts),
            Scenario::new("unready", 300, unready),
            Scenario::new("spawned", 600, spawned), Scenario::new("large", 25, super::large::mock),
            Scenario::threaded("threads", 8, threads),
        ],
    }
}

type M = Mock<Req, Resp>;

enum End {
    Bare(M, Tk),
    Sp(Spawn<M>),
}
impl End {
    fn poll_ready(&mut self) -> Poll<Result<(), BoxError>> {
        match self {
            End::Bare(m, tk) => tk.clone().poll(|cx| m.poll_ready(cx)),
            End::Sp(s) => s.poll_ready(),
        }
    }
    fn woken(&self) -> bool {
        match self {
            End::Bare(_, tk) => tk.woken(),
            End::Sp(s) => s.is_woken(),
        }
    }
    fn call(&mut self, r: Req) -> <M as Service<Req>>::Future {
        match self {
            End::Bare(m, _) => m.call(r),
            End::Sp(s) => s.call(r),
        }
    }
}
struct Cl {
    end: End,
    can_send: bool,
    /// registered and not woken since
    waiting: bool,
}
fn fresh(m: M, spawned: bool) -> Cl {
    Cl {
        end: if spawned { End::Sp(Spawn::new(m)) } else { End::Bare(m, Tk::new()) },
        can_send: false,
        waiting: false,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Queued,
    Received,
    Ok(u64),
    Err(usize),
    Closed,
}
struct Out {
    id: u64,
    fut: Option<Fut<<M as Service<Req>>::Future>>,
    pended: bool,
    fate: Fate,
}

fn is_closed(e: &BoxError) -> bool {
    e.is::<Closed>()
}

struct St {
    c: Case,
    w: World,
    rem: u64,
    err: Option<usize>,
    nerr: usize,
    closed: bool,
    clones: Vec<Cl>,
    queue: VecDeque<u64>,
    outs: Vec<Out>,
    resp: Vec<(u64, Req, SendResponse<Resp>)>,
    // what happened
    waited: bool,
    released: bool,
    answered: bool,
    lost: bool,
}
impl St {
    fn out(&mut self, id: u64) -> &mut Out {
        self.outs.iter_mut().find(|o| o.id == id).unwrap()
    }
    fn wake_all(&mut self, why: &str) {
        for i in 0..self.clones.len() {
            if self.clones[i].waiting {
                self.clones[i].waiting = false;
                let ok = self.clones[i].end.woken();
                chk!(self.c, ok, "waiting clone {} was not woken by {}", i, why);
            }
        }
    }
    fn poll_ready(&mut self, i: usize) {
        let c = self.c.clone();
        let was_waiting = self.clones[i].waiting;
        let got = self.clones[i].end.poll_ready();
        ev!(c, "clone {} ready? {:?}", i, got);
        if self.closed {
            chk!(c, matches!(&got, Poll::Ready(Err(e)) if is_closed(e)), "the handle is gone, readiness says {:?}", got);
        } else if let Some(k) = self.err.take() {
            let ok = matches!(&got, Poll::Ready(Err(e)) if e.downcast_ref::<Fail>().is_some_and(|f| f.inst == k));
            chk!(c, ok, "scripted error {} expected from the next readiness check, got {:?}", k, got);
            // the error does not resume or consume readiness
            self.lost = true;
        } else if self.clones[i].can_send || self.rem > 0 {
            chk!(c, matches!(got, Poll::Ready(Ok(()))), "{} requests allowed but readiness says {:?}", self.rem, got);
            if was_waiting {
                // it was never released: only allowances make room
                chk!(c, self.clones[i].can_send, "a waiting clone became ready unwoken");
            }
            self.clones[i].can_send = true;
            if self.waited {
                self.released = true;
            }
            self.clones[i].waiting = false;
        } else {
            chk!(c, got.is_pending(), "no request allowed but readiness says {:?}", got);
            self.clones[i].waiting = true;
            self.waited = true;
        }
    }
    fn call(&mut self, i: usize) {
        let c = self.c.clone();
        let req = self.w.req();
        let id = req.id;
        ev!(c, "clone {} call r{}", i, id);
        let f = Fut::new(self.clones[i].end.call(req));
        let fate = if self.closed {
            Fate::Closed
        } else {
            self.clones[i].can_send = false;
            self.rem = self.rem.saturating_sub(1);
            self.queue.push_back(id);
            Fate::Queued
        };
        self.outs.push(Out { id, fut: Some(f), pended: false, fate });
    }
    fn receive(&mut self, got: Poll<Option<(Req, SendResponse<Resp>)>>) {
        let c = self.c.clone();
        match got {
            Poll::Ready(Some((req, sr))) => {
                let want = self.queue.pop_front();
                chk!(c, want == Some(req.id), "the handle received {:?}, expected {:?}", req, want);
                chk!(c, req.tag == 0, "the handle received a copy {:?}", req);
                let id = req.id;
                if want == Some(id) {
                    self.out(id).fate = Fate::Received;
                    self.resp.push((id, req, sr));
                }
            }
            Poll::Ready(None) => {
                chk!(c, self.queue.is_empty() && self.clones.is_empty(), "the handle saw the end with {} requests queued and {} clones alive", self.queue.len(), self.clones.len());
            }
            Poll::Pending => {
                chk!(c, self.queue.is_empty(), "{} requests queued but none received", self.queue.len());
                chk!(c, !self.clones.is_empty(), "all clones are gone but the handle sees no end of requests");
            }
        }
    }
    fn check_out(&mut self, k: usize) {
        let c = self.c.clone();
        let o = &mut self.outs[k];
        let Some(f) = o.fut.as_mut() else { return };
        let decided = !matches!(o.fate, Fate::Queued | Fate::Received);
        if decided && o.pended {
            chk!(c, f.tk.woken(), "r{} was decided ({:?}) but its waiter was not woken", o.id, o.fate);
        }
        let got = f.poll();
        match (o.fate, got) {
            (Fate::Queued | Fate::Received, Poll::Pending) => o.pended = true,
            (Fate::Ok(mark), Poll::Ready(Ok(r))) => {
                chk!(c, r.id == o.id && r.mark == mark, "r{} answered with {:?} (mark {}), sent mark {}", o.id, r, r.mark, mark);
                self.answered = true;
                o.fut = None;
            }
            (Fate::Err(n), Poll::Ready(Err(e))) => {
                let ok = e.downcast_ref::<Fail>().is_some_and(|f| f.inst == n && f.id == o.id);
                chk!(c, ok, "r{} failed with {:?}, sent error {}", o.id, e, n);
                self.answered = true;
                o.fut = None;
            }
            (Fate::Closed, Poll::Ready(Err(e))) => {
                chk!(c, is_closed(&e), "r{} lost its responder but failed with {:?}", o.id, e);
                o.fut = None;
            }
            (fate, got) => {
                chk!(c, false, "r{} is {:?} but its response says {:?}", o.id, fate, got);
                o.fut = None;
            }
        }
    }
    fn answer(&mut self, k: usize, kind: u64) {
        let c = self.c.clone();
        let (id, req, sr) = self.resp.remove(k);
        ev!(c, "answer r{} kind {}", id, kind);
        match kind {
            0 | 1 => {
                let mut resp = self.w.resp(id, 0);
                resp.mark = 1000 + id;
                sr.send_response(resp);
                self.out(id).fate = Fate::Ok(1000 + id);
            }
            2 => {
                self.nerr += 1;
                let n = self.nerr;
                sr.send_error(Fail { inst: n, call: None, id });
                self.out(id).fate = Fate::Err(n);
            }
            _ => {
                drop(sr);
                self.out(id).fate = Fate::Closed;
                self.lost = true;
            }
        }
        drop(req);
    }
    fn drop_handle(&mut self, h: &mut Option<Handle<Req, Resp>>) {
        ev!(self.c, "handle dropped");
        *h = None;
        self.closed = true;
        while let Some(id) = self.queue.pop_front() {
            self.out(id).fate = Fate::Closed;
            self.lost = true;
        }
        self.wake_all("the handle going away");
    }
}

fn model(c: &Case) {
    let r = c.rng.clone();
    let w = World::new_plain(c);
    let (first, handle) = match r.below(3) {
        0 => {
            let (m, h) = mock::pair::<Req, Resp>();
            (fresh(m, false), h)
        }
        1 => {
            let (s, h) = mock::spawn::<Req, Resp>();
            (Cl { end: End::Sp(s), can_send: false, waiting: false }, h)
        }
        _ => {
            let (s, h) = mock::spawn_with::<Req, Resp, _, _>(|m| m);
            (Cl { end: End::Sp(s), can_send: false, waiting: false }, h)
        }
    };
    let mut handle = Some(handle);
    let mut st = St {
        c: c.clone(),
        w: w.clone(),
        rem: u64::MAX,
        err: None,
        nerr: 100,
        closed: false,
        clones: vec![first],
        queue: VecDeque::new(),
        outs: vec![],
        resp: vec![],
        waited: false,
        released: false,
        answered: false,
        lost: false,
    };
    if r.pct(70) {
        let n = r.below(4);
        handle.as_mut().unwrap().allow(n);
        st.rem = n;
        ev!(c, "allow {}", n);
    }
    let close_pct = *r.pick(&[0, 1, 3]);
    for _ in 0..r.range(10, 90) {
        if c.violated() {
            break;
        }
        let n = st.clones.len();
        match r.weighted(&[30, 25, 6, 4, 12, 4, 18, 18, 18, 5, close_pct, 4]) {
            0 if n > 0 => {
                let i = r.us(n);
                st.poll_ready(i);
            }
            1 if n > 0 => {
                let ready: Vec<usize> = (0..n).filter(|&i| st.clones[i].can_send || st.closed).collect();
                if ready.is_empty() {
                    let i = r.us(n);
                    st.poll_ready(i);
                } else {
                    st.call(*r.pick(&ready));
                }
            }
            2 if n > 0 && n < 5 => {
                let i = r.us(n);
                let cl = match &st.clones[i].end {
                    End::Bare(m, _) => fresh(m.clone(), r.pct(50)),
                    End::Sp(s) => match r.below(3) {
                        0 => Cl { end: End::Sp(s.clone()), can_send: false, waiting: false },
                        1 => fresh(s.get_ref().clone(), false),
                        _ => fresh(s.clone().into_inner(), true),
                    },
                };
                ev!(c, "clone of {}", i);
                st.clones.push(cl);
            }
            3 if n > 0 && (n > 1 || r.pct(15)) => {
                let i = r.us(n);
                ev!(c, "clone {} dropped", i);
                drop(st.clones.remove(i));
            }
            4 => {
                if let Some(h) = handle.as_mut() {
                    let n = *r.pick(&[0, 1, 1, 1, 2, 3, u64::MAX]);
                    h.allow(n);
                    ev!(c, "allow {}", n);
                    st.rem = n;
                    if n > 0 {
                        st.wake_all("an allowance");
                    }
                }
            }
            5 => {
                if let Some(h) = handle.as_mut() {
                    st.nerr += 1;
                    ev!(c, "scripted error {}", st.nerr);
                    h.send_error(Fail { inst: st.nerr, call: None, id: 0 });
                    st.err = Some(st.nerr);
                    st.wake_all("a scripted error");
                }
            }
            6 => {
                if let Some(h) = handle.as_mut() {
                    let got = h.poll_request();
                    st.receive(got);
                }
            }
            // wait for a request and have it arrive
            11 => {
                if let Some(h) = handle.as_mut() {
                    if !st.queue.is_empty() {
                        continue;
                    }
                    let ready: Vec<usize> = (0..n).filter(|&i| st.clones[i].can_send).collect();
                    let mut f = Fut::new(h.next_request());
                    let got = f.poll();
                    if got.is_ready() {
                        drop(f);
                        st.receive(got);
                        continue;
                    }
                    chk!(c, n > 0, "all clones are gone but the handle waits for requests");
                    if ready.is_empty() {
                        continue;
                    }
                    st.call(*r.pick(&ready));
                    chk!(c, f.tk.woken(), "a request arrived but the handle was not woken");
                    let got = f.poll();
                    drop(f);
                    st.receive(got);
                }
            }
            7 if !st.resp.is_empty() => {
                let k = r.us(st.resp.len());
                let kind = r.below(4);
                st.answer(k, kind);
            }
            8 if !st.outs.is_empty() => {
                let k = r.us(st.outs.len());
                st.check_out(k);
            }
            9 if !st.outs.is_empty() => {
                let k = r.us(st.outs.len());
                if st.outs[k].fut.take().is_some() {
                    ev!(c, "response of r{} dropped", st.outs[k].id);
                }
            }
            10 if handle.is_some() => st.drop_handle(&mut handle),
            _ => {}
        }
    }
    // everything outstanding ends, in one of several orders
    if !c.violated() {
        match r.below(3) {
            0 => {
                // answer all
                if let Some(h) = handle.as_mut() {
                    for _ in 0..st.queue.len() {
                        let got = h.poll_request();
                        st.receive(got);
                    }
                }
                while !st.resp.is_empty() {
                    let kind = r.below(4);
                    st.answer(0, kind);
                }
                st.clones.clear();
                if let Some(h) = handle.as_mut() {
                    let got = h.poll_request();
                    st.receive(got);
                }
            }
            1 => {
                if handle.is_some() {
                    st.drop_handle(&mut handle);
                }
                for i in 0..st.clones.len() {
                    st.poll_ready(i);
                    if r.pct(40) {
                        st.call(i);
                    }
                }
            }
            _ => {}
        }
    }
    for k in 0..st.outs.len() {
        if c.violated() {
            break;
        }
        st.check_out(k);
    }
    if st.waited && st.released && st.answered && st.lost {
        c.nontrivial();
    }
    c.count("requests", st.outs.len() as u64);
    drop(st);
    drop(handle);
    w.check_no_leak("mock");
}

/// The assertion macro and the layer helper.
fn asserts(c: &Case) {
    let r = c.rng.clone();
    // a layer that adds its tag to the request number
    let tag = r.range(1, 9) * 1000;
    let applied = Arc::new(AtomicU64::new(0));
    let applied2 = applied.clone();
    let (mut svc, mut handle) = mock::spawn_layer::<u64, u64, _>(layer_fn(move |m: Mock<u64, u64>| {
        applied2.fetch_add(1, SeqCst);
        tower::util::MapRequest::new(m, move |x: u64| x + tag)
    }));
    chk!(c, applied.load(SeqCst) == 1, "the layer was applied {} times", applied.load(SeqCst));
    let mut outs = vec![];
    let n = r.range(1, 7);
    for i in 0..n {
        let got = svc.poll_ready::<u64>();
        chk!(c, matches!(got, Poll::Ready(Ok(()))), "not ready: {:?}", got);
        outs.push(Fut::new(svc.call(i)));
    }
    for i in 0..n {
        let wrong = r.pct(30);
        let want = if wrong { i + tag + r.range(1, 5) } else { i + tag };
        let h = &mut handle;
        let msg = r.pct(50);
        let got = catch_unwind(AssertUnwindSafe(|| {
            Fut::new(async move {
                if msg {
                    assert_request_eq!(h, want, "request {}", i)
                } else {
                    assert_request_eq!(h, want)
                }
            })
            .poll()
        }));
        let panics = take_panics();
        match got {
            Ok(Poll::Ready(sr)) => {
                chk!(c, !wrong, "the assertion passed for request {} against {}", i + tag, want);
                sr.send_response(want * 2);
                let got = outs[i as usize].poll();
                chk!(c, matches!(got, Poll::Ready(Ok(x)) if x == want * 2), "the responder of the assertion gave {:?}", got);
            }
            Ok(Poll::Pending) => {
                chk!(c, false, "the assertion did not see the queued request");
            }
            Err(_) => {
                chk!(c, wrong, "the assertion failed for the request it expects: {:?}", panics);
                let got = outs[i as usize].poll();
                chk!(c, matches!(&got, Poll::Ready(Err(e)) if is_closed(e)), "the asserted request's responder is gone but it says {:?}", got);
            }
        }
        ev!(c, "request {} tag {} against {} msg={}", i, tag, want, msg);
    }
    // nothing there: wait, and fail once no request can come any more
    let h = &mut handle;
    let mut f = Fut::new(async move {
        let _ = assert_request_eq!(h, 0);
    });
    chk!(c, f.poll().is_pending(), "an assertion without a request did not wait");
    drop(svc);
    chk!(c, f.tk.woken(), "the assertion was not woken by the last clone going away");
    let got = catch_unwind(AssertUnwindSafe(|| f.poll()));
    let _ = take_panics();
    chk!(c, got.is_err(), "an assertion passed without a request");
    c.nontrivial();
}

/// Calling a mock that is not ready is reported by a panic.
fn unready(c: &Case) {
    let r = c.rng.clone();
    let (mut m, mut h) = mock::pair::<u64, u64>();
    let tk = Tk::new();
    let how = r.below(4);
    match how {
        0 => {}
        1 => {
            // used its readiness
            let _ = tk.poll(|cx| m.poll_ready(cx));
            let _ = m.call(1);
            let _ = h.poll_request();
        }
        2 => {
            h.allow(0);
            chk!(c, tk.poll(|cx| m.poll_ready(cx)).is_pending(), "ready without an allowance");
        }
        _ => {
            // the readiness of the original is not the clone's
            let _ = tk.poll(|cx| m.poll_ready(cx));
            let m2 = m.clone();
            std::mem::forget(std::mem::replace(&mut m, m2));
        }
    }
    ev!(c, "unready by {}", how);
    let got = catch_unwind(AssertUnwindSafe(|| {
        let _ = m.call(7);
    }));
    let _ = take_panics();
    chk!(c, got.is_err(), "a call without readiness (case {}) was accepted", how);
    chk!(c, h.poll_request().is_pending(), "a call without readiness (case {}) reached the handle", how);
    c.nontrivial();
    // the shared state is poisoned by the panic: its destructors would panic too
    std::mem::forget(m);
    std::mem::forget(h);
}

/// Clones used from several threads while the handle allows and answers on another.
fn threads(c: &Case) {
    let r = c.rng.clone();
    let clones = r.range(2, 6);
    let per = r.range(5, 40);
    let (m, mut h) = mock::pair::<u64, u64>();
    h.allow(0);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let bad = Arc::new(Mutex::new(vec![]));
    let total = clones * per;
    let batch = r.range(1, 5);
    let hung = rt.block_on(async {
        let mut js = vec![];
        for k in 0..clones {
            let mut m = m.clone();
            let bad = bad.clone();
            js.push(tokio::spawn(async move {
                for i in 0..per {
                    let x = k * 1000 + i;
                    if let Err(e) = std::future::poll_fn(|cx| m.poll_ready(cx)).await {
                        bad.lock().unwrap().push(format!("readiness of {} failed: {:?}", k, e));
                        return;
                    }
                    match m.call(x).await {
                        Ok(y) if y == x + 7 => {}
                        other => bad.lock().unwrap().push(format!("request {} answered {:?}", x, other)),
                    }
                }
            }));
        }
        drop(m);
        let bad2 = bad.clone();
        let hj = tokio::spawn(async move {
            let mut seen = 0;
            let mut last = vec![None; clones as usize];
            h.allow(batch);
            let mut since = 0;
            while seen < total {
                match tokio::time::timeout(Duration::from_millis(2), h.next_request()).await {
                    Ok(Some((x, sr))) => {
                        let (k, i) = ((x / 1000) as usize, x % 1000);
                        if last[k].map_or(i != 0, |l: u64| i != l + 1) {
                            bad2.lock().unwrap().push(format!("request {} received after {:?}", x, last[k]));
                        }
                        last[k] = Some(i);
                        sr.send_response(x + 7);
                        seen += 1;
                        since += 1;
                        if since > batch + clones {
                            bad2.lock().unwrap().push(format!("{} requests accepted on an allowance of {} with {} clones", since, batch, clones));
                        }
                        if since >= batch {
                            // clones that were ready already may still come
                            h.allow(batch);
                            since = 0;
                        }
                    }
                    Ok(None) => {
                        bad2.lock().unwrap().push("the handle saw the end while clones were at work".into());
                        return;
                    }
                    Err(_) => {
                        h.allow(batch);
                        since = 0;
                    }
                }
            }
            if let Ok(Some((x, _))) = tokio::time::timeout(Duration::from_secs(20), h.next_request()).await {
                bad2.lock().unwrap().push(format!("request {} too many", x));
            }
        });
        let all = async {
            for j in js {
                let _ = j.await;
            }
            let _ = hj.await;
        };
        tokio::time::timeout(Duration::from_secs(40), all).await.is_err()
    });
    rt.shutdown_background();
    chk!(c, !hung, "clones of the mock hung although their requests were allowed and answered");
    for b in bad.lock().unwrap().iter().take(3) {
        chk!(c, false, "{}", b);
    }
    ev!(c, "{} clones, {} requests each, allowance {}", clones, per, batch);
    c.count("threaded requests", total);
    c.nontrivial();
}

/// A service that is ready when its switch is on, and keeps every waker it was polled with.
#[derive(Clone)]
struct Keeper {
    sw: Arc<Mutex<(bool, Vec<std::task::Waker>)>>,
    tag: u64,
    calls: Arc<AtomicU64>,
}
impl tower::Service<u64> for Keeper {
    type Response = u64;
    type Error = u64;
    type Future = std::future::Ready<Result<u64, u64>>;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), u64>> {
        let mut s = self.sw.lock().unwrap();
        if s.0 {
            return if self.tag % 5 == 4 { Poll::Ready(Err(self.tag)) } else { Poll::Ready(Ok(())) };
        }
        s.1.push(cx.waker().clone());
        Poll::Pending
    }
    fn call(&mut self, x: u64) -> Self::Future {
        self.calls.fetch_add(1, SeqCst);
        std::future::ready(Ok(x + self.tag))
    }
}

/// The mock task: one per spawned service and clone, woken only through its own waker.
fn spawned(c: &Case) {
    let r = c.rng.clone();
    let calls = Arc::new(AtomicU64::new(0));
    let mk = |tag: u64| Keeper { sw: Default::default(), tag, calls: calls.clone() };
    // (spawned service, its switch, model: woken, wakers held)
    let mut all = vec![];
    let mut next = 0u64;
    let (mut woken, mut cloned, mut made) = (0u64, 0u64, 0u64);
    for _ in 0..r.range(10, 60) {
        if c.violated() {
            break;
        }
        match r.weighted(&[10, 40, 25, 15, 8]) {
            0 if all.len() < 8 => {
                let k = mk(next);
                next += 1;
                let sw = k.sw.clone();
                let s = Spawn::new(k);
                chk!(c, !s.is_woken(), "a new mock task is woken");
                all.push((s, sw, false));
            }
            1 if !all.is_empty() => {
                let i = r.us(all.len());
                let (s, sw, w) = &mut all[i];
                let (on, held) = {
                    let x = sw.lock().unwrap();
                    (x.0, x.1.len())
                };
                let got = s.poll_ready::<u64>();
                *w = false;
                ev!(c, "s{} poll_ready {:?} on={}", s.get_ref().tag, got, on);
                let bad = s.get_ref().tag % 5 == 4;
                let good = match &got {
                    Poll::Pending => !on && sw.lock().unwrap().1.len() == held + 1,
                    Poll::Ready(Ok(())) => on && !bad,
                    Poll::Ready(Err(e)) => on && bad && *e == s.get_ref().tag,
                };
                chk!(c, good, "readiness {:?} of a service that is on={} failing={}", got, on, bad);
                chk!(c, !s.is_woken(), "woken without a wake since the last poll");
                if matches!(got, Poll::Ready(Ok(()))) && r.pct(60) {
                    let n = calls.load(SeqCst);
                    let x = r.below(100);
                    let got = Fut::new(s.call(x)).poll();
                    chk!(c, matches!(got, Poll::Ready(Ok(y)) if y == x + s.get_ref().tag), "the answer is {:?}", got);
                    chk!(c, calls.load(SeqCst) == n + 1, "the service was called {} times", calls.load(SeqCst) - n);
                    made += 1;
                }
            }
            2 if !all.is_empty() => {
                let i = r.us(all.len());
                let (s, sw, w) = &mut all[i];
                let on = r.pct(60);
                let ws = {
                    let mut x = sw.lock().unwrap();
                    x.0 = on;
                    if r.pct(70) { std::mem::take(&mut x.1) } else { vec![] }
                };
                let some = !ws.is_empty();
                for k in ws {
                    k.wake();
                }
                *w |= some;
                woken += some as u64;
                ev!(c, "s{} on={} wakes={}", s.get_ref().tag, on, some);
            }
            3 if !all.is_empty() && all.len() < 8 => {
                let i = r.us(all.len());
                let s = all[i].0.clone();
                cloned += 1;
                chk!(c, !s.is_woken(), "the task of a clone is woken");
                chk!(c, s.waker_ref_count() == 1, "a clone's waker is held {} times", s.waker_ref_count());
                chk!(c, s.get_ref().tag == all[i].0.get_ref().tag, "the clone is of another service");
                // it goes on as a service of its own
                let mut s = s;
                s.get_mut().tag = next;
                s.get_mut().sw = Default::default();
                let sw = s.get_ref().sw.clone();
                next += 1;
                all.push((s, sw, false));
            }
            4 if all.len() > 1 => {
                // taken out and spawned again: a new task
                let i = r.us(all.len());
                let (s, sw, _) = all.remove(i);
                let k = s.into_inner();
                chk!(c, Arc::ptr_eq(&k.sw, &sw), "another service came out");
                let s = Spawn::new(k);
                chk!(c, !s.is_woken(), "a new mock task is woken");
                sw.lock().unwrap().1.clear();
                all.insert(i, (s, sw, false));
            }
            _ => {}
        }
        for (s, sw, w) in &all {
            let t = s.get_ref().tag;
            chk!(c, s.is_woken() == *w, "task of s{} woken: {} instead of {}", t, s.is_woken(), w);
            let held = sw.lock().unwrap().1.len();
            chk!(c, s.waker_ref_count() == held + 1, "the waker of s{} is held {} times instead of {}", t, s.waker_ref_count(), held + 1);
        }
    }
    c.count("mock tasks woken", woken);
    c.count("spawned clones", cloned);
    c.count("spawned calls", made);
    if woken > 0 && cloned > 0 {
        c.nontrivial();
    }
}
