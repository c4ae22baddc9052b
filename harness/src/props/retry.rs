//! P08 retry, P09 retry budget, P10 exponential backoff.
use crate::kit::*;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::task::Context;
use tokio::time::Instant;
use tower::retry::backoff::{Backoff, ExponentialBackoffMaker, MakeBackoff};
use tower::retry::budget::{Budget, TpsBudget};
use tower::retry::{Policy, Retry, RetryLayer};
use tower::util::rng::{HasherRng, Rng as TowerRng};
use tower_layer::Layer;

pub fn p08() -> Prop {
    Prop {
        id: "P08",
        rule: "seeded random policies (copyability, retry pattern, waits, mutations), inner outcomes and readiness, concurrent calls on clones with cancellations; the recorded callbacks and inner calls of each request are checked against the attempt grammar; non-trivial: some call was attempted again",
        assumptions: &["tokio's paused clock behaves as documented"],
        scenarios: vec![Scenario::new("attempts", 6000, attempts), Scenario::new("large", 25, super::large::retries)],
    }
}
pub fn p09() -> Prop {
    Prop {
        id: "P09",
        rule: "seeded random deposits and withdrawals with spacings on, off and far beyond slot boundaries against a model bracketing one slot; real threads racing for the same balance, drained and summed; non-trivial: at least one grant and one refusal after an expiry (model), contended withdrawals (threads)",
        assumptions: &["tokio's paused clock behaves as documented", "a retry ratio is applied in whole deposits per withdrawal (above one, in thousandths)"],
        scenarios: vec![
            Scenario::new("model", 8000, budget_model),
            Scenario::new("construction", 200, budget_construction),
            Scenario::new("kept_for_ttl", 2000, budget_kept), Scenario::new("large", 8, super::large::budget),
            Scenario::threaded("threads_overdraw", 12, budget_threads),
            Scenario::threaded("threads_rotate", 3, budget_rotate),
        ],
    }
}
pub fn p10() -> Prop {
    Prop {
        id: "P10",
        rule: "seeded random parameters from nanoseconds to years (also invalid ones), several sessions of up to 70 waits each with scripted extreme and uniform random draws; non-trivial: a session reached doubling with jitter",
        assumptions: &["tokio's paused clock and Sleep::deadline behave as documented"],
        scenarios: vec![
            Scenario::new("bounds", 6000, backoff_bounds),
            Scenario::new("spread", 400, backoff_spread),
            Scenario::new("validation", 4000, backoff_validation),
            Scenario::new("timer", 1500, backoff_timer),
        ],
    }
}

// ---------------------------------------------------------------- P08

#[derive(Clone, Debug, PartialEq, Eq)]
enum Out {
    Ok { id: u64, tag: u64, call: usize, mark: u64 },
    Err(Fail),
}
fn out(r: &Result<Resp, Fail>) -> Out {
    match r {
        Ok(x) => Out::Ok { id: x.id, tag: x.tag, call: x.call, mark: x.mark },
        Err(e) => Out::Err(e.clone()),
    }
}

#[derive(Debug)]
struct CloneRec {
    seq: u64,
    from: (u64, u64),
    got: Option<u64>,
}
#[derive(Debug)]
struct Consult {
    seq: u64,
    t: Duration,
    copy: (u64, u64),
    seen: Out,
    retries_before: u64,
    retry: bool,
    mark_after: u64,
    after: Out,
    wait_done: Option<(u64, Duration)>,
}
#[derive(Default)]
struct Hist {
    clones: Vec<CloneRec>,
    consults: Vec<Consult>,
    outer: Option<(u64, Duration, Out)>,
    cancelled: Option<u64>,
}
type Book = Arc<Mutex<BTreeMap<u64, Hist>>>;

#[derive(Clone, Debug)]
struct Style {
    copy_pct: u64,
    recopy_pct: u64,
    retry_err_pct: u64,
    retry_ok_pct: u64,
    max: u64,
    mutate_req: u64,
    mutate_res: u64,
    waits: [u64; 3],
}

struct Pol {
    w: World,
    book: Book,
    r: Rng,
    style: Style,
    retries: u64,
    /// the request this instance copied last, and how often
    copies: (u64, u64),
}
impl Clone for Pol {
    fn clone(&self) -> Pol {
        Pol { w: self.w.clone(), book: self.book.clone(), r: self.r.clone(), style: self.style.clone(), retries: self.retries, copies: self.copies }
    }
}

struct Wait {
    w: World,
    book: Book,
    id: u64,
    k: usize,
    spin: bool,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    done: bool,
}
impl Future for Wait {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        if this.done {
            this.w.c.fail("the policy's wait future was polled after it finished");
            return Poll::Ready(());
        }
        if this.spin {
            this.spin = false;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Some(s) = this.sleep.as_mut() {
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
        }
        this.done = true;
        let x = (this.w.seq(), this.w.now());
        ev!(this.w.c, "wait over for {}", this.id);
        this.book.lock().unwrap().get_mut(&this.id).unwrap().consults[this.k].wait_done = Some(x);
        Poll::Ready(())
    }
}

impl Policy<Req, Resp, Fail> for Pol {
    type Future = Wait;
    fn retry(&mut self, req: &mut Req, res: &mut Result<Resp, Fail>) -> Option<Wait> {
        let (w, r, s) = (&self.w, &self.r, &self.style);
        let seen = out(res);
        let copy = (req.tag, req.mark);
        let pct = if res.is_ok() { s.retry_ok_pct } else { s.retry_err_pct };
        let go = self.retries < s.max && r.pct(pct);
        let before = self.retries;
        self.retries += 1;
        let (known, want) = (self.copies, (req.id, self.retries));
        chk!(w.c, known == want, "the policy asked about attempt {} of request {} knows of {} copies of request {}: what it noted while copying is lost", before, req.id, known.1, known.0);
        if r.pct(s.mutate_req) {
            req.mark = r.range(1, 1 << 40);
        }
        if r.pct(s.mutate_res) {
            match r.below(3) {
                0 => *res = Err(Fail { inst: usize::MAX, call: Some(r.us(1 << 30)), id: req.id }),
                1 => {
                    let mut x = w.resp(req.id, req.tag);
                    x.mark = r.range(1, 1 << 40);
                    *res = Ok(x);
                }
                _ => {
                    if let Ok(x) = res {
                        x.mark = r.range(1, 1 << 40);
                    }
                }
            }
        }
        let mut b = self.book.lock().unwrap();
        let h = b.entry(req.id).or_default();
        h.consults.push(Consult {
            seq: w.seq(),
            t: w.now(),
            copy,
            seen,
            retries_before: before,
            retry: go,
            mark_after: req.mark,
            after: out(res),
            wait_done: None,
        });
        ev!(w.c, "consulted on {:?}: retry {}", req, go);
        if !go {
            return None;
        }
        let kind = r.weighted(&s.waits);
        Some(Wait {
            w: w.clone(),
            book: self.book.clone(),
            id: req.id,
            k: h.consults.len() - 1,
            spin: kind == 1,
            sleep: (kind == 2).then(|| Box::pin(tokio::time::sleep(Duration::from_millis(r.range(1, 40))))),
            done: false,
        })
    }
    fn clone_request(&mut self, req: &Req) -> Option<Req> {
        let mut b = self.book.lock().unwrap();
        let h = b.entry(req.id).or_default();
        let pct = if h.clones.is_empty() { self.style.copy_pct } else { self.style.recopy_pct };
        let x = self.r.pct(pct).then(|| req.clone());
        self.copies = if self.copies.0 == req.id { (req.id, self.copies.1 + 1) } else { (req.id, 1) };
        h.clones.push(CloneRec { seq: self.w.seq(), from: (req.tag, req.mark), got: x.as_ref().map(|x| x.tag) });
        ev!(self.w.c, "asked to copy {:?}: {:?}", req, x);
        x
    }
}

fn attempts(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let mut plan = Plan::random(&r);
        plan.resp_err_pct = *r.pick(&[0, 30, 60, 100]);
        plan.ready_err_pct = *r.pick(&[0, 0, 0, 6, 20]);
        let style = Style {
            copy_pct: *r.pick(&[100, 100, 80]),
            recopy_pct: *r.pick(&[100, 100, 70]),
            retry_err_pct: *r.pick(&[100, 80, 50]),
            retry_ok_pct: *r.pick(&[0, 0, 30, 80]),
            max: r.below(7),
            mutate_req: *r.pick(&[0, 50]),
            mutate_res: *r.pick(&[0, 40]),
            waits: *r.pick(&[[1, 0, 0], [1, 1, 1], [0, 0, 1]]),
        };
        ev!(c, "{:?} {:?}", plan, style);
        let w = World::new(c, plan);
        let book: Book = Default::default();
        let pol = Pol { w: w.clone(), book: book.clone(), r: r.fork(), style, retries: 0, copies: (0, 0) };
        let svc = match r.below(3) {
            0 => Retry::new(pol, w.svc(0)),
            1 => RetryLayer::new(pol).layer(w.svc(0)),
            _ => tower::ServiceBuilder::new().retry(pol).service(w.svc(0)),
        };
        let s = Sched::new(c);
        for k in 0..r.range(1, 4) {
            let mut svc = svc.clone();
            let (c, w, book, r, s2) = (c.clone(), w.clone(), book.clone(), r.fork(), s.clone());
            s.spawn(format!("caller {}", k), async move {
                for n in 0..r.range(1, 4) {
                    sleep_ms(r.below(20)).await;
                    let rd = std::future::poll_fn(|cx| svc.poll_ready(cx)).await;
                    if let Err(e) = rd {
                        chk!(c, e.call.is_none(), "readiness error {:?} is not the inner service's", e);
                        return;
                    }
                    let req = w.req();
                    let id = req.id;
                    book.lock().unwrap().insert(id, Hist::default());
                    let f = svc.call(req);
                    if r.pct(15) {
                        // give up after a while
                        let (b, w) = (book.clone(), w.clone());
                        let b2 = book.clone();
                        let w2 = w.clone();
                        let t = s2.daemon(format!("cancelled {} {}", k, n), async move {
                            let x = f.await;
                            let seq = w2.seq();
                            b2.lock().unwrap().get_mut(&id).unwrap().outer = Some((seq, w2.now(), out(&x)));
                        });
                        sleep_ms(r.below(60)).await;
                        if !s2.finished(t) {
                            s2.abort(t);
                            ev!(c, "caller gave up on {}", id);
                            b.lock().unwrap().get_mut(&id).unwrap().cancelled = Some(w.seq());
                        }
                    } else {
                        let (b2, w2) = (book.clone(), w.clone());
                        let task = async move {
                            let x = f.await;
                            let seq = w2.seq();
                            b2.lock().unwrap().get_mut(&id).unwrap().outer = Some((seq, w2.now(), out(&x)));
                        };
                        if r.pct(50) {
                            s2.spawn(format!("call {} {}", k, n), task);
                        } else {
                            task.await;
                        }
                    }
                }
            });
        }
        drop(svc);
        let stuck = s.run(Duration::from_secs(3600)).await;
        chk!(c, stuck.is_empty(), "calls hang although everything they wait for has happened: {:?}", stuck);
        s.clear();
        let mut again = 0u64;
        for (id, h) in book.lock().unwrap().iter() {
            if c.violated() {
                break;
            }
            judge(c, &w, *id, h);
            again += w.lock().calls.iter().filter(|x| x.id == *id).count().saturating_sub(1) as u64;
        }
        c.count("calls", book.lock().unwrap().len() as u64);
        c.count("further attempts", again);
        if again > 0 {
            c.nontrivial();
        }
        drop(book);
        w.check_no_leak("retry");
    });
}

struct Att {
    tag: u64,
    mark: u64,
    idx: usize,
    seq: u64,
    done_seq: u64,
    t: Duration,
    done: Option<(bool, Duration)>,
}

fn judge(c: &Case, w: &World, id: u64, h: &Hist) {
    let calls: Vec<Att> = w
        .lock()
        .calls
        .iter()
        .enumerate()
        .filter(|(_, x)| x.id == id)
        .map(|(idx, x)| Att { tag: x.tag, mark: x.mark, idx, seq: x.seq, done_seq: x.done_seq, t: x.t, done: x.done })
        .collect();
    if let Some(end) = h.cancelled {
        let late = h.clones.iter().any(|x| x.seq > end) || h.consults.iter().any(|x| x.seq > end) || calls.iter().any(|x| x.seq > end);
        chk!(c, !late, "request {} was still worked on after its caller gave up", id);
    }
    if !chk!(c, !calls.is_empty() && calls[0].tag == 0 && calls[0].mark == 0, "request {} itself was not passed to the service first", id) {
        return;
    }
    let mut k = 0;
    let mut fin: Option<(u64, Duration, Out)> = None;
    loop {
        let a = &calls[k];
        let Some(cl) = h.clones.get(k) else {
            c.fail(format!("request {}: no copy was asked for before attempt {}", id, k));
            return;
        };
        chk!(c, cl.seq < a.seq && cl.from == (a.tag, a.mark), "request {}: attempt {} sent {:?} but copied {:?}", id, k, (a.tag, a.mark), cl.from);
        let Some((ok, done_t)) = a.done else {
            chk!(c, h.cancelled.is_some() && calls.len() == k + 1, "request {}: attempt {} unfinished", id, k);
            break;
        };
        let o = if ok {
            Out::Ok { id, tag: a.tag, call: a.idx, mark: a.mark }
        } else {
            Out::Err(Fail { inst: w.lock().calls[a.idx].inst, call: Some(a.idx), id })
        };
        let Some(tag) = cl.got else {
            chk!(c, h.consults.len() == k, "request {}: the policy was consulted without a copy of the request", id);
            fin = Some((a.done_seq, done_t, o));
            break;
        };
        let Some(q) = h.consults.get(k) else {
            c.fail(format!("request {}: the policy was not consulted on attempt {}", id, k));
            return;
        };
        chk!(c, q.copy == (tag, a.mark), "request {}: the policy was shown {:?}, not the copy {:?}", id, q.copy, (tag, a.mark));
        chk!(c, q.seen == o, "request {}: the policy was shown outcome {:?}, the attempt's was {:?}", id, q.seen, o);
        chk!(c, q.seq > a.done_seq && q.t <= done_t + Duration::from_millis(1), "request {}: the policy was consulted at the wrong time", id);
        chk!(c, q.retries_before == k as u64, "request {}: the policy had seen {} attempts instead of {}: its state is lost or shared between calls", id, q.retries_before, k);
        if !q.retry {
            fin = Some((q.seq, q.t, q.after.clone()));
            break;
        }
        let Some((ws, wt)) = q.wait_done else {
            chk!(c, h.cancelled.is_some() && calls.len() == k + 1, "request {}: attempt {} before the policy's wait was over", id, k + 1);
            break;
        };
        match calls.get(k + 1) {
            Some(n) => {
                chk!(c, n.seq > ws && n.t >= wt, "request {}: attempt {} before the policy's wait was over", id, k + 1);
                chk!(c, (n.tag, n.mark) == (tag, q.mark_after), "request {}: attempt {} sent {:?} instead of the policy's copy {:?}", id, k + 1, (n.tag, n.mark), (tag, q.mark_after));
            }
            None => {
                match &h.outer {
                    Some((s, t, Out::Err(f))) if f.call.is_none() => {
                        chk!(c, w.lock().insts[f.inst].errored, "made-up readiness failure");
                        fin = Some((*s - 1, *t, Out::Err(f.clone())));
                        c.count("ended by readiness failure", 1);
                    }
                    Some(o) => c.fail(format!("request {}: the policy asked for another attempt, the caller got {:?}", id, o)),
                    None => {
                        chk!(c, h.cancelled.is_some(), "request {}: no attempt {} was made", id, k + 1);
                    }
                }
                break;
            }
        }
        k += 1;
    }
    if c.violated() {
        return;
    }
    let more = h.clones.len() > k + 1 || h.consults.len() > k + 1 || calls.len() > k + 1;
    chk!(c, !more, "request {}: went on after its last attempt ({} copies, {} consultations, {} calls)", id, h.clones.len(), h.consults.len(), calls.len());
    match (fin, &h.outer) {
        (Some((s, t, o)), Some((os, ot, oo))) => {
            chk!(c, o == *oo, "request {}: the caller got {:?}, the last attempt left {:?}", id, oo, o);
            chk!(c, *os > s && *ot <= t + Duration::from_millis(1), "request {}: answered late", id);
        }
        (None, Some(x)) => c.fail(format!("request {}: answered {:?} out of nowhere", id, x)),
        (Some(_), None) => {
            // resolved in the same instant the caller gave up
            chk!(c, h.cancelled.is_some(), "request {}: never answered", id);
        }
        (None, None) => {}
    }
}

// ---------------------------------------------------------------- P09

fn pick_budget(r: &Rng) -> (Duration, u32, f32, i64, i64, i64) {
    let ttl = match r.below(5) {
        0 => Duration::from_secs(1),
        1 => Duration::from_secs(10),
        2 => Duration::from_secs(r.range(1, 60)),
        3 => Duration::from_millis(r.range(1000, 60_000)),
        _ => Duration::from_secs(60),
    };
    let min = *r.pick(&[0u32, 0, 0, 1, 2, 5]);
    let pct = *r.pick(&[0.0f32, 0.001, 0.03, 0.1, 0.2, 0.25, 0.5, 1.0, 1.0, 2.0, 2.5, 10.0, 300.0, 600.0, 1000.0]);
    let (dep, wd) = if pct == 0.0 {
        (0i64, 1i64)
    } else if pct <= 1.0 {
        (1, (1.0 / pct) as i64)
    } else {
        (1000, (1000.0 / pct) as i64)
    };
    let reserve = min as i64 * ttl.as_secs() as i64 * wd;
    (ttl, min, pct, dep, wd, reserve)
}

fn budget_model(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let preset = r.pct(4);
        let (ttl, min, pct, dep, wd, reserve) =
            if preset { (Duration::from_secs(10), 10, 0.2f32, 1, 5, 500) } else { pick_budget(&r) };
        // start anywhere relative to the timer's grid
        tokio::time::advance(Duration::from_micros(r.below(100_000))).await;
        let b = if preset { TpsBudget::default() } else { TpsBudget::new(ttl, min, pct) };
        let slot = ttl / 10;
        ev!(c, "ttl {:?} min {} pct {} (deposit {} withdraw {} reserve {})", ttl, min, pct, dep, wd, reserve);
        let t0 = Instant::now();
        let mut hist: Vec<(Duration, i64)> = vec![];
        let (mut grants, mut refusals, mut expired) = (0u64, 0u64, false);
        // balance between the two extremes the slot granularity leaves open
        let bounds = |hist: &[(Duration, i64)], now: Duration| -> (i64, i64) {
            let (mut lo, mut hi) = (reserve, reserve);
            for (t, d) in hist {
                let age = now - *t;
                if age + slot < ttl {
                    lo += d;
                    hi += d;
                } else if age <= ttl + slot {
                    lo += (*d).min(0);
                    hi += (*d).max(0);
                }
            }
            (lo, hi)
        };
        let style = r.below(5);
        let bulk = r.pct(10);
        for _ in 0..r.range(20, 160) {
            let now = t0.elapsed();
            if bulk && r.pct(40) {
                // many at once
                for _ in 0..if r.pct(60) { r.below(40) } else { 0 } {
                    b.deposit();
                    hist.push((now, dep));
                }
                let (mut lo, mut hi) = bounds(&hist, now);
                let (lo0, hi0) = (lo, hi);
                let mut got = 0;
                for _ in 0..r.below(3000) {
                    if b.withdraw() {
                        if !chk!(c, hi >= wd, "{:?}: grant {} in a row with a balance of at most {} (a withdrawal costs {})", now, got + 1, hi, wd) {
                            break;
                        }
                        got += 1;
                        lo -= wd;
                        hi -= wd;
                    } else {
                        refusals += 1;
                        chk!(c, lo < wd, "{:?}: refused after {} grants in a row with a balance of at least {} (a withdrawal costs {})", now, got, lo, wd);
                        break;
                    }
                }
                grants += got as u64;
                hist.push((now, -wd * got));
                ev!(c, "{:?} {} deposits so far, {} withdrawals in a row (balance {}..{})", now, hist.len(), got, lo0, hi0);
                if c.violated() {
                    break;
                }
                continue;
            }
            match r.below(3) {
                0 => {
                    b.deposit();
                    ev!(c, "{:?} deposit", now);
                    hist.push((now, dep));
                }
                1 => {
                    let got = b.withdraw();
                    let (lo, hi) = bounds(&hist, now);
                    ev!(c, "{:?} withdraw -> {} (balance {}..{})", now, got, lo, hi);
                    if got {
                        grants += 1;
                        chk!(c, hi >= wd, "{:?}: granted with a balance of at most {} (a withdrawal costs {})", now, hi, wd);
                        hist.push((now, -wd));
                    } else {
                        refusals += 1;
                        chk!(c, lo < wd, "{:?}: refused with a balance of at least {} (a withdrawal costs {})", now, lo, wd);
                    }
                }
                _ => {
                    let d = match style {
                        0 => slot.mul_f64(1.0 + r.f64() * 0.2),
                        1 => slot.mul_f64(r.f64() * 3.0),
                        2 => *r.pick(&[slot, slot * 2, slot * 9, slot * 10, slot * 11, ttl, slot - Duration::from_nanos(1), slot + Duration::from_nanos(1)]),
                        3 => slot.mul_f64(r.f64() * 0.4),
                        _ => match r.below(10) {
                            0 => ttl * r.range(1, 30) as u32,
                            1 => Duration::from_secs(r.range(1, 86_400 * 400)),
                            _ => slot.mul_f64(r.f64() * 2.5),
                        },
                    };
                    tokio::time::advance(d).await;
                    expired |= t0.elapsed() > ttl + slot;
                    ev!(c, "+{:?}", d);
                }
            }
            if c.violated() {
                break;
            }
        }
        c.count("grants", grants);
        c.count("refusals", refusals);
        if grants > 0 && refusals > 0 && expired {
            c.nontrivial();
        }
    });
}

/// Deposits stay usable for the whole time-to-live while the budget is in use at odd spacings,
/// and are gone afterwards; withdrawals are forgiven likewise.
fn budget_kept(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let (ttl, _, _, _, _, _) = pick_budget(&r);
        let slot = ttl / 10;
        let k = r.range(1, 8);
        let b = TpsBudget::new(ttl, 0, 1.0);
        let t0 = Instant::now();
        tokio::time::advance(slot.mul_f64(r.f64() * 20.0)).await;
        for _ in 0..k {
            b.deposit();
        }
        let put = t0.elapsed();
        // keep poking it without changing the balance: a withdrawal refunded at once
        let step = slot.mul_f64(*r.pick(&[0.3, 0.5, 0.99, 1.0, 1.01, 1.1, 1.5, 1.99, 2.0, 2.5, 3.3]));
        let until = put + ttl.mul_f64(*r.pick(&[0.3, 0.55, 0.7, 0.85, 1.3, 1.6, 2.5]));
        let mut pokes = 0;
        while t0.elapsed() + step < until {
            tokio::time::advance(step).await;
            pokes += 1;
            if r.pct(50) {
                // probing an empty part of the balance changes nothing
                let d = format!("{:?}", b);
                ev!(c, "{:?} {}", t0.elapsed(), d);
                if t0.elapsed() - put < ttl - slot && r.pct(40) {
                    chk!(c, b.withdraw(), "a deposit aged {:?} no longer counts (time-to-live {:?}, used every {:?})", t0.elapsed() - put, ttl, step);
                    b.deposit();
                    return c.nontrivial();
                }
            } else {
                // zero-valued use of the budget
                b.withdraw();
                b.deposit();
                if t0.elapsed() - put >= ttl - slot {
                    return;
                }
            }
        }
        tokio::time::advance(until.saturating_sub(t0.elapsed())).await;
        let age = t0.elapsed() - put;
        let mut got = 0;
        while got < 100 && b.withdraw() {
            got += 1;
        }
        ev!(c, "ttl {:?} deposits {} age {:?} step {:?} pokes {} -> {}", ttl, k, age, step, pokes, got);
        if age + slot < ttl {
            chk!(c, got == k, "{} of {} deposits aged {:?} count (time-to-live {:?}, used every {:?})", got, k, age, ttl, step);
            c.nontrivial();
        } else if age > ttl + slot && pokes == 0 {
            chk!(c, got == 0, "{} of {} deposits aged {:?} still count (time-to-live {:?})", got, k, age, ttl);
            c.nontrivial();
        }
    });
}

/// Threads racing for a small balance: the sum of grants must equal what was available.
fn budget_threads(c: &Case) {
    let r = c.rng.clone();
    let rounds = 1500usize;
    let n = 4usize;
    struct Round {
        b: TpsBudget,
        seed_deposits: u64,
    }
    let rs: Vec<Round> = (0..rounds)
        .map(|_| Round { b: TpsBudget::new(Duration::from_secs(60), 0, *r.pick(&[1.0, 0.5, 2.0])), seed_deposits: r.range(1, 8) })
        .collect();
    let style: Vec<(i64, i64)> = rs
        .iter()
        .map(|x| {
            let d = format!("{:?}", x.b);
            // the amounts are part of the public Debug output; fall back on skipping the sum
            let num = |k: &str| -> Option<i64> {
                let at = d.find(k)? + k.len();
                d[at..].trim_start_matches([':', ' ']).split(|ch: char| !ch.is_ascii_digit()).next()?.parse().ok()
            };
            (num("deposit").unwrap_or(0), num("withdraw").unwrap_or(0))
        })
        .collect();
    for x in &rs {
        for _ in 0..x.seed_deposits {
            x.b.deposit();
        }
    }
    let gate: Vec<AtomicUsize> = (0..rounds).map(|_| AtomicUsize::new(0)).collect();
    let granted: Vec<AtomicU64> = (0..rounds).map(|_| AtomicU64::new(0)).collect();
    let added: Vec<AtomicU64> = (0..rounds).map(|_| AtomicU64::new(0)).collect();
    let deposit_in: Vec<bool> = (0..rounds).map(|_| r.pct(40)).collect();
    let start = std::time::Instant::now();
    std::thread::scope(|s| {
        for t in 0..n {
            let (rs, gate, granted, added, deposit_in) = (&rs, &gate, &granted, &added, &deposit_in);
            s.spawn(move || {
                for k in 0..rounds {
                    gate[k].fetch_add(1, SeqCst);
                    let mut spins = 0u64;
                    while gate[k].load(SeqCst) < n {
                        std::hint::spin_loop();
                        spins += 1;
                        if spins % 20_000 == 0 {
                            std::thread::yield_now();
                        }
                    }
                    for i in 0..10 {
                        if deposit_in[k] && (i + t) % 5 == 0 {
                            added[k].fetch_add(1, SeqCst);
                            rs[k].b.deposit();
                        }
                        if rs[k].b.withdraw() {
                            granted[k].fetch_add(1, SeqCst);
                        }
                    }
                }
            });
        }
    });
    if start.elapsed() > Duration::from_secs(40) {
        return; // too slow a machine: deposits may have expired
    }
    let mut contended = 0;
    for k in 0..rounds {
        while granted[k].load(SeqCst) < 1_000_000 && rs[k].b.withdraw() {
            granted[k].fetch_add(1, SeqCst);
        }
        let (dep, wd) = style[k];
        if wd == 0 {
            continue;
        }
        let have = (rs[k].seed_deposits + added[k].load(SeqCst)) as i64 * dep;
        let want = have / wd;
        let got = granted[k].load(SeqCst) as i64;
        chk!(c, got <= want, "{} withdrawals granted by {} racing threads with {} available: overdrawn", got, n, want);
        chk!(c, got == want, "{} withdrawals granted in all with {} available: deposits lost", got, want);
        contended += 1;
        c.fp(got as u64);
    }
    ev!(c, "{} rounds of {} threads", rounds, n);
    c.count("contended rounds", contended);
    if contended > 0 {
        c.nontrivial();
    }
}

/// Threads depositing and withdrawing while slots rotate, within the time-to-live.
fn budget_rotate(c: &Case) {
    let r = c.rng.clone();
    let b = TpsBudget::new(Duration::from_secs(1), r.range(1, 50) as u32, 1.0);
    let d0 = format!("{:?}", b);
    let reserve: Option<u64> = d0.find("balance").and_then(|i| d0[i + 7..].trim_start_matches([':', ' ']).split(|ch: char| !ch.is_ascii_digit()).next().and_then(|x| x.parse().ok()));
    let Some(reserve) = reserve else { return };
    let start = std::time::Instant::now();
    let (dep, got) = (AtomicU64::new(0), AtomicU64::new(0));
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        for t in 0..4u64 {
            let (b, dep, got, stop) = (&b, &dep, &got, &stop);
            s.spawn(move || {
                let mut x = t;
                while !stop.load(SeqCst) {
                    x += 1;
                    if (x + t) % 3 == 0 {
                        dep.fetch_add(1, SeqCst);
                        b.deposit();
                    }
                    if b.withdraw() {
                        got.fetch_add(1, SeqCst);
                    }
                }
            });
        }
        std::thread::sleep(Duration::from_millis(550));
        stop.store(true, SeqCst);
    });
    while b.withdraw() {
        got.fetch_add(1, SeqCst);
    }
    if start.elapsed() > Duration::from_millis(880) {
        return;
    }
    let (dep, got) = (dep.load(SeqCst), got.load(SeqCst));
    ev!(c, "{} deposits, reserve {}, {} grants", dep, reserve, got);
    chk!(c, got == dep + reserve, "{} grants in less than the time-to-live for {} deposits and a reserve of {}", got, dep, reserve);
    c.count("grants during rotation", got);
    c.nontrivial();
}

// ---------------------------------------------------------------- P10

/// Scripted generator: extremes mixed with uniform draws.
#[derive(Clone)]
struct Draws {
    r: Rng,
    kind: u64,
}
impl TowerRng for Draws {
    fn next_u64(&mut self) -> u64 {
        match self.kind {
            0 => 0,
            1 => u64::MAX,
            2 => *self.r.pick(&[0, u64::MAX, 1, 1 << 11, 1 << 63, u64::MAX >> 1]),
            _ => self.r.u64(),
        }
    }
}

fn dur(r: &Rng) -> Duration {
    match r.below(9) {
        0 => Duration::ZERO,
        1 => Duration::from_nanos(r.range(1, 5000)),
        2 => Duration::from_micros(r.range(1, 5000)),
        3 => Duration::from_millis(r.range(1, 2000)),
        4 => Duration::from_secs(r.range(1, 10)),
        5 => Duration::new(r.range(0, 5), r.below(1_000_000_000) as u32),
        6 => Duration::from_secs(r.range(60, 86_400 * 30)),
        7 => Duration::from_millis(r.range(500, 1500)),
        _ => *r.pick(&[Duration::from_millis(u64::MAX), Duration::from_secs(86_400 * 365 * 20), Duration::MAX, Duration::from_nanos(999_999_999)]),
    }
}
fn jit(r: &Rng) -> f64 {
    match r.below(6) {
        0 => 0.0,
        1 => r.f64(),
        2 => *r.pick(&[0.5, 0.99, 1.0, 2.0, 100.0, 1e-9]),
        3 => r.f64() * 100.0,
        4 => 0.3,
        _ => 1.0 + r.f64(),
    }
}
fn params(r: &Rng) -> (Duration, Duration, f64) {
    loop {
        let (a, b, j) = (dur(r), dur(r), jit(r));
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        if !b.is_zero() {
            return (a, b, j);
        }
    }
}

fn base_of(min: Duration, max: Duration, n: u32) -> Duration {
    let f = if n >= 32 { u32::MAX } else { 1u32 << n };
    min.checked_mul(f).unwrap_or(max).min(max)
}

/// the duration a sleep was made with
fn length(now: Instant, s: &tokio::time::Sleep) -> Duration {
    s.deadline() - now
}

const FAR: Duration = Duration::from_secs(86_400 * 365 * 29);

fn backoff_bounds(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let (min, max, j) = params(&r);
        let kind = r.below(5);
        ev!(c, "min {:?} max {:?} jitter {} draws {}", min, max, j, kind);
        let draws = Draws { r: r.fork(), kind };
        let boxed = r.pct(20);
        let Ok(mut mk) = ExponentialBackoffMaker::new(min, max, j, draws) else {
            c.fail("valid parameters were rejected");
            return;
        };
        let mut other = if boxed { Some(mk.clone()) } else { None };
        let (mut jittered, mut doubled) = (false, false);
        for sess in 0..r.range(1, 4) {
            let mut b = match (&mut other, sess % 2) {
                (Some(o), 1) => o.make_backoff(),
                _ => mk.make_backoff(),
            };
            for n in 0..*r.pick(&[2u32, 6, 15, 40, 70]) {
                let now = Instant::now();
                let s = b.next_backoff();
                let d = length(now, &s);
                let base = base_of(min, max, n);
                doubled |= n > 0 && base > min;
                ev!(c, "session {} wait {}: {:?} (base {:?})", sess, n, d, base);
                if base >= FAR {
                    // tokio's timer stops at 30 years
                    chk!(c, d >= FAR, "wait {} of {:?} instead of {:?}", n, d, base);
                    continue;
                }
                if !chk!(c, d >= base, "wait {} of session {} is {:?}, below its base {:?}", n, sess, d, base) {
                    break;
                }
                if max >= FAR && d >= FAR {
                    continue;
                }
                chk!(c, d <= max, "wait {} of session {} is {:?}, above the maximum {:?}", n, sess, d, max);
                let extra = (d - base).as_secs_f64();
                let top = base.as_secs_f64() * j;
                jittered |= extra > 0.0;
                chk!(c, extra <= top * (1.0 + 1e-6) + 2e-9, "wait {}: jitter of {} s exceeds {} * {:?}", n, extra, j, base);
                if j == 0.0 {
                    chk!(c, d == base, "wait {}: {:?} without jitter, base {:?}", n, d, base);
                }
            }
        }
        if jittered && doubled {
            c.nontrivial();
        }
    });
}

fn backoff_spread(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let (min, j) = loop {
            let (m, _, j) = params(&r);
            if m >= Duration::from_micros(10) && m <= Duration::from_secs(86_400 * 30) && j > 1e-6 {
                break (m, j);
            }
        };
        let n = *r.pick(&[0u32, 1, 2, 3, 6, 10, 17]);
        let Some(base) = min.checked_mul(1 << n) else { return };
        if base.as_secs_f64() * j < 1e-5 || base.as_secs_f64() * (1.0 + j) >= FAR.as_secs_f64() {
            return; // past what tokio's timer holds
        }
        // either the jitter is unhindered, or max cuts into its range
        let cut = *r.pick(&[1.0f64, 1.0, 0.5, 0.25]);
        let max = if cut == 1.0 { Duration::MAX } else { base + base.mul_f64(j * cut) };
        if max <= base {
            return;
        }
        ev!(c, "min {:?} wait {} jitter {} cut {}", min, n, j, cut);
        let draws = Draws { r: r.fork(), kind: 9 };
        let mk = ExponentialBackoffMaker::new(min, max, j, draws.clone()).expect("valid");
        let mut mk2 = ExponentialBackoffMaker::new(min, max, j, HasherRng::default()).expect("valid");
        let hasher = r.pct(30);
        let mut bins = [0u32; 40];
        let mut sum = 0.0;
        let total = 1500;
        let now = Instant::now();
        for k in 0..total {
            let s = if hasher {
                let mut b = mk2.make_backoff();
                // sessions of one maker replay its generator: take a fresh one each time
                mk2 = ExponentialBackoffMaker::new(min, max, j, HasherRng::default()).expect("valid");
                for _ in 0..n {
                    let _ = b.next_backoff();
                }
                b.next_backoff()
            } else {
                // an own generator per session
                let mut b = ExponentialBackoffMaker::new(min, max, j, Draws { r: draws.r.fork(), kind: 9 }).expect("valid").make_backoff();
                for _ in 0..n {
                    let _ = b.next_backoff();
                }
                b.next_backoff()
            };
            let d = length(now, &s);
            if !chk!(c, d >= base && d <= max, "wait of {:?} for base {:?} and maximum {:?}", d, base, max) {
                return;
            }
            let f = (d - base).as_secs_f64() / (base.as_secs_f64() * j);
            sum += f;
            bins[((f * 40.0) as usize).min(39)] += 1;
            if k < 3 {
                ev!(c, "fraction {:.4}", f);
            }
        }
        drop(mk);
        for (i, b) in bins.iter().enumerate() {
            let lo = i as f64 / 40.0;
            if lo + 0.025 <= cut + 1e-9 {
                chk!(c, *b > 0, "no wait of {} drew a jitter in {}..{} of its range: {:?} (base {:?}, jitter {})", total, lo, lo + 0.025, bins, base, j);
            }
        }
        if cut == 1.0 {
            let mean = sum / total as f64;
            chk!(c, (0.35..=0.65).contains(&mean), "the mean jitter is {} of its range (base {:?}, jitter {})", mean, base, j);
        } else {
            chk!(c, bins[39] == 0, "jitter beyond the maximum");
        }
        c.nontrivial();
    });
}

fn backoff_validation(c: &Case) {
    let r = c.rng.clone();
    let (min, max) = (dur(&r), dur(&r));
    let max = if r.pct(20) { min } else { max };
    let j = *r.pick(&[0.0, -0.0, 0.5, 1.0, 100.0, 100.000001, 1e300, -1e-300, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE]);
    let want = min <= max && !max.is_zero() && j >= 0.0 && j <= 100.0;
    let got = ExponentialBackoffMaker::new(min, max, j, HasherRng::default());
    ev!(c, "min {:?} max {:?} jitter {} -> {}", min, max, j, got.is_ok());
    chk!(c, got.is_ok() == want, "construction with min {:?} max {:?} jitter {}: accepted {} expected {}", min, max, j, got.is_ok(), want);
    if let Err(e) = got {
        chk!(c, e.to_string().contains("invalid backoff"), "error text {}", e);
    }
    c.nontrivial();
}

fn backoff_timer(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let min = *r.pick(&[Duration::from_millis(1), Duration::from_millis(50), Duration::from_micros(300), Duration::from_secs(2), Duration::from_secs(3600)]);
        let max = min * r.range(1, 50) as u32;
        let j = jit(&r);
        let default = r.pct(10);
        let s = Sched::new(c);
        let (c2, r2) = (c.clone(), r.fork());
        s.spawn("waiter", async move {
            let c = c2;
            let r = r2;
            let mut n = 0;
            let mut mk = ExponentialBackoffMaker::new(min, max, j, Draws { r: r.fork(), kind: 9 }).expect("valid");
            let mut dm = ExponentialBackoffMaker::default();
            let mut b = mk.make_backoff();
            let mut d = dm.make_backoff();
            for _ in 0..r.range(1, 8) {
                let now = Instant::now();
                let s = if default { d.next_backoff() } else { b.next_backoff() };
                let want = length(now, &s);
                if default {
                    let base = Duration::from_millis(50) * (1 << n);
                    chk!(c, want >= base && want <= base.mul_f64(1.99) + Duration::from_nanos(2), "default wait {} is {:?}", n, want);
                }
                s.await;
                let took = now.elapsed();
                ev!(c, "wait of {:?} took {:?}", want, took);
                chk!(c, took >= want && took <= want + Duration::from_millis(2), "a wait of {:?} took {:?}", want, took);
                n += 1;
                if r.pct(20) {
                    b = mk.make_backoff();
                    d = dm.make_backoff();
                    n = 0;
                }
            }
            c.nontrivial();
        });
        let stuck = s.run(Duration::from_secs(86_400 * 3000)).await;
        chk!(c, stuck.is_empty(), "the waiting task was never woken");
    });
}

/// A budget is refused exactly for the values its documentation rules out.
fn budget_construction(c: &Case) {
    let r = c.rng.clone();
    let s = Duration::from_secs;
    let n = Duration::from_nanos(1);
    let ttl = *r.pick(&[Duration::ZERO, s(1) - n, s(1), s(1) + n, s(10), s(60) - n, s(60), s(60) + n, s(61), Duration::from_millis(r.range(1, 70_000))]);
    let min = *r.pick(&[0u32, 1, 10, 1000, i32::MAX as u32 - 1, i32::MAX as u32, u32::MAX]);
    let pct = *r.pick(&[0.0f32, -0.0, 0.2, 1.0, 1000.0, 1000.1, -0.001, f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
    let got = std::panic::catch_unwind(|| {
        let b = TpsBudget::new(ttl, min, pct);
        min == 0 || b.withdraw()
    });
    let _ = crate::kit::run::take_panics();
    let valid = ttl >= s(1) && ttl <= s(60) && (0.0..=1000.0).contains(&pct) && min < i32::MAX as u32;
    match got {
        Ok(w) => {
            chk!(c, valid, "a budget of {:?}, {}, {} is accepted", ttl, min, pct);
            chk!(c, w, "a new budget of {:?}, {}, {} does not grant its reserve", ttl, min, pct);
        }
        Err(_) => {
            chk!(c, !valid, "a budget of {:?}, {}, {} is refused", ttl, min, pct);
        }
    }
    ev!(c, "{:?} {} {} {}", ttl, min, pct, valid);
    c.nontrivial();
}
