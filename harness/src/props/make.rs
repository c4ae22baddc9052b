//! P26 service makers and discovery adapters, P27 random helpers.
use super::cache::{Disc, DiscErr, DiscEv, DiscHandle, Draw, Loaded};
use crate::kit::*;
use futures::Stream;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};
use std::io;
use std::pin::Pin;
use std::sync::atomic::AtomicU64;
use std::sync::Mutex;
use std::task::Context;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tower::balance::p2c::{Balance, MakeBalance, MakeBalanceLayer};
use tower::discover::{Change, ServiceList};
use tower::load::completion::CompleteOnResponse;
use tower::load::{Constant, Load, PeakEwmaDiscover, PendingRequestsDiscover};
use tower::make::{MakeConnection, MakeService, Shared};
use tower::util::rng::{HasherRng, Rng as TowerRng};
use tower::util::MapResponse;
use tower_layer::Layer;

pub fn p26() -> Prop {
    Prop {
        id: "P26",
        rule: "seeded random targets, maker readiness and outcomes, and discovery scripts, compared element by element with what the wrapped maker or discovery produced; non-trivial: several targets or changes including a failure, and made services used",
        assumptions: &[],
        scenarios: vec![
            Scenario::new("maker", 3000, maker),
            Scenario::new("connection", 800, connection),
            Scenario::new("shared", 1500, shared),
            Scenario::new("list", 800, list), Scenario::new("large", 25, super::large::list),
            Scenario::new("wrapped", 3000, wrapped),
            Scenario::new("balance", 2000, balance),
        ],
    }
}

pub fn p27() -> Prop {
    Prop {
        id: "P27",
        rule: "random and extreme generator outputs, ranges, hashers and clone points against exact arithmetic and coarse frequency bounds; non-trivial: every case",
        assumptions: &["frequency bounds are loose enough that a uniform generator leaves them with probability below 1e-9 per run"],
        scenarios: vec![
            Scenario::new("float", 1000, float),
            Scenario::new("range", 1500, range),
            Scenario::new("hasher", 800, hasher), Scenario::new("large", 25, super::large::hasher),
        ],
    }
}

type MakeErr = Fail;

/// Readiness of a maker must be the wrapped maker's.
fn same_ready(c: &Case, w: &World, inst: usize, got: &Poll<Result<(), MakeErr>>, polls: u32) {
    let i = w.lock();
    let (ready, failed) = i.insts[inst].clone_state();
    let n = i.insts[inst].polls;
    drop(i);
    chk!(c, n == polls + 1, "the wrapped maker was polled {} times by one readiness check", n - polls);
    let want = match got {
        Poll::Ready(Ok(())) => ready,
        Poll::Ready(Err(e)) => failed && e.inst == inst && e.call.is_none(),
        Poll::Pending => !ready && !failed,
    };
    chk!(c, want, "readiness {:?} but the wrapped maker is ready={} failed={}", got, ready, failed);
}

/// How the maker is used.
fn maker(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        // made services live in a world of their own
        let made_w = World::new(c, Plan::manual(Gate::Open));
        let orig = w.svc(0);
        let how = r.below(4);
        let mw = made_w.clone();
        let mut m = MapResponse::new(orig, move |x: Resp| mw.svc(x.id as u32));
        let mut into = if how == 1 { Some(MakeService::<Req, Req>::into_service(m.clone())) } else { None };
        let mut inst = if how == 1 { w.newest() } else { 0 };
        if how == 1 && r.pct(40) {
            into = into.map(|x| x.clone());
            inst = w.newest();
        }
        let mut futs = vec![];
        let mut made: Vec<(u64, Probe)> = vec![];
        let (mut ok, mut bad, mut dropped) = (0, 0, 0);
        'ops: for _ in 0..r.range(4, 25) {
            if c.violated() {
                break;
            }
            // readiness, then a target
            w.gate(inst, *r.pick(&[Gate::Open, Gate::Open, Gate::Open, Gate::Closed]));
            if r.pct(2) {
                w.gate(inst, Gate::Err);
            }
            let polls = w.lock().insts[inst].polls;
            let tk = Tk::new();
            let got = match how {
                0 => tk.poll(|cx| MakeService::<Req, Req>::poll_ready(&mut m, cx)),
                1 => tk.poll(|cx| Service::poll_ready(into.as_mut().unwrap(), cx)),
                2 => tk.poll(|cx| Service::<Req>::poll_ready(&mut MakeService::<Req, Req>::as_service(&mut m), cx)),
                _ => tk.poll(|cx| Service::poll_ready(&mut MakeService::<Req, Req>::as_service(&mut m), cx)),
            };
            same_ready(c, &w, inst, &got, polls);
            match got {
                Poll::Ready(Ok(())) => {}
                Poll::Ready(Err(_)) => break 'ops,
                Poll::Pending => {
                    w.gate(inst, Gate::Open);
                    chk!(c, tk.woken(), "the waker did not reach the wrapped maker");
                    continue;
                }
            }
            let k = w.ncalls();
            let t = w.req();
            let id = t.id;
            let f = match how {
                0 => MakeService::<Req, Req>::make_service(&mut m, t),
                1 => into.as_mut().unwrap().call(t),
                _ => MakeService::<Req, Req>::as_service(&mut m).call(t),
            };
            chk!(c, w.ncalls() == k + 1 && w.lock().calls[k].id == id && w.lock().calls[k].tag == 0, "target {} was not handed to the wrapped maker once", id);
            futs.push((k, id, Fut::new(f)));
            while !futs.is_empty() && r.pct(45) {
                let i = r.us(futs.len());
                if r.pct(15) {
                    drop(futs.remove(i));
                    dropped += 1;
                    continue;
                }
                let succeed = r.pct(70);
                if r.pct(50) {
                    chk!(c, futs[i].2.poll().is_pending(), "a service came out before the maker made it");
                    w.finish(futs[i].0, succeed);
                    chk!(c, futs[i].2.tk.woken(), "the made service did not wake its waiter");
                } else {
                    w.finish(futs[i].0, succeed);
                }
                let (call, id, mut f) = futs.remove(i);
                match f.poll() {
                    Poll::Ready(Ok(p)) => {
                        chk!(c, succeed, "the maker failed for target {} but a service came out", id);
                        chk!(c, made_w.lock().insts[p.id].group == id as u32, "target {} was given the service of target {}", id, made_w.lock().insts[p.id].group);
                        made.push((id, p));
                        ok += 1;
                    }
                    Poll::Ready(Err(e)) => {
                        chk!(c, !succeed && e.call == Some(call), "target {} failed with {:?}", id, e);
                        bad += 1;
                    }
                    Poll::Pending => {
                        chk!(c, false, "the maker answered for target {} but nothing came out", id);
                    }
                }
            }
        }
        let n = made_w.lock().insts.len();
        chk!(c, n == ok, "{} services were made for {} successful targets", n, ok);
        for (id, mut p) in made {
            use_made(c, &made_w, &mut p, id);
        }
        if ok >= 2 && bad + dropped >= 1 {
            c.nontrivial();
        }
        drop(futs);
        drop(m);
        drop(into);
        w.check_no_leak("maker");
        made_w.check_no_leak("made services");
    })
}

fn use_made(c: &Case, w: &World, p: &mut Probe, id: u64) {
    let tk = Tk::new();
    if !matches!(tk.poll(|cx| p.poll_ready(cx)), Poll::Ready(Ok(()))) {
        return;
    }
    let k = w.ncalls();
    let req = w.req();
    let mut f = Fut::new(p.call(req));
    chk!(c, w.lock().calls[k].group == id as u32, "a request for target {} reached the service of target {}", id, w.lock().calls[k].group);
    w.finish(k, true);
    let _ = f.poll();
}

/// A transport that identifies itself.
struct Conn(u64);
impl AsyncRead for Conn {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        b.put_slice(&self.0.to_le_bytes());
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for Conn {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

fn connection(c: &Case) {
    async fn go<M>(c: &Case, w: &World, m: &mut M)
    where
        M: MakeConnection<Req, Error = Fail>,
        M::Connection: Unpin,
    {
        let r = c.rng.clone();
        let (mut ok, mut bad) = (0, 0);
        for _ in 0..r.range(3, 12) {
            w.gate(0, *r.pick(&[Gate::Open, Gate::Open, Gate::Closed]));
            let polls = w.lock().insts[0].polls;
            let tk = Tk::new();
            let got = tk.poll(|cx| m.poll_ready(cx));
            same_ready(c, w, 0, &got, polls);
            if !matches!(got, Poll::Ready(Ok(()))) {
                w.gate(0, Gate::Open);
                chk!(c, tk.woken(), "the waker did not reach the wrapped connector");
                continue;
            }
            let k = w.ncalls();
            let t = w.req();
            let id = t.id;
            let mut f = Fut::new(m.make_connection(t));
            chk!(c, w.ncalls() == k + 1 && w.lock().calls[k].id == id, "target {} was not handed to the connector once", id);
            let succeed = r.pct(70);
            chk!(c, f.poll().is_pending(), "connected before the connector did");
            w.finish(k, succeed);
            match f.poll() {
                Poll::Ready(Ok(mut conn)) => {
                    let mut buf = [0u8; 8];
                    let mut rb = ReadBuf::new(&mut buf);
                    let got = tk.poll(|cx| Pin::new(&mut conn).poll_read(cx, &mut rb));
                    chk!(c, succeed && got.is_ready() && u64::from_le_bytes(buf) == id, "target {} was connected to {}", id, u64::from_le_bytes(buf));
                    ok += 1;
                }
                Poll::Ready(Err(e)) => {
                    chk!(c, !succeed && e.call == Some(k), "target {} failed with {:?}", id, e);
                    bad += 1;
                }
                Poll::Pending => {
                    chk!(c, false, "the connector answered but nothing came out");
                }
            }
        }
        if ok > 0 && bad > 0 {
            c.nontrivial();
        }
    }
    sim(async {
        let w = World::new(c, Plan::manual(Gate::Open));
        let mut m = MapResponse::new(w.svc(0), |x: Resp| Conn(x.id));
        go(c, &w, &mut m).await;
        drop(m);
        w.check_no_leak("connector");
    })
}

fn shared(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(*r.pick(&[Gate::Open, Gate::Closed, Gate::Err])));
        let mut makers = vec![(0usize, Shared::new(w.svc(0)))];
        let mut made: Vec<Probe> = vec![];
        for _ in 0..r.range(4, 25) {
            if c.violated() {
                break;
            }
            let i = r.us(makers.len());
            let tk = Tk::new();
            match r.below(5) {
                0 if makers.len() < 3 => {
                    let m = makers[i].1.clone();
                    let id = w.newest();
                    makers.push((id, m));
                }
                1 | 2 => {
                    let src = makers[i].0;
                    let before = w.lock().insts.len();
                    let p = if r.pct(50) {
                        let m = &mut makers[i].1;
                        let got = tk.poll(|cx| Service::<u8>::poll_ready(m, cx));
                        chk!(c, matches!(got, Poll::Ready(Ok(()))), "a shared maker is not ready: {:?}", got);
                        Fut::new(m.call(7u8)).poll()
                    } else {
                        let m = &mut makers[i].1;
                        let got = tk.poll(|cx| MakeService::<&str, Req>::poll_ready(m, cx));
                        chk!(c, matches!(got, Poll::Ready(Ok(()))), "a shared maker is not ready: {:?}", got);
                        Fut::new(MakeService::<&str, Req>::make_service(m, "x")).poll()
                    };
                    match p {
                        Poll::Ready(Ok(p)) => {
                            let i = w.lock();
                            let (n, parent) = (i.insts.len(), i.insts[p.id].parent);
                            drop(i);
                            chk!(c, p.id == before && n == before + 1 && parent == Some(src), "a shared maker gave s{} (cloned from {:?}; {} instances, {} before)", p.id, parent, n, before);
                            made.push(p);
                        }
                        Poll::Ready(Err(_)) => {}
                        Poll::Pending => {
                            chk!(c, false, "a shared maker did not answer at once");
                        }
                    }
                }
                3 if !made.is_empty() => {
                    let j = r.us(made.len());
                    if r.pct(30) {
                        drop(made.remove(j));
                    } else {
                        w.gate(made[j].id, Gate::Open);
                        let id = made[j].id;
                        let got = tk.poll(|cx| made[j].poll_ready(cx));
                        chk!(c, got.is_ready(), "s{} is open but not ready", id);
                        if matches!(got, Poll::Ready(Ok(()))) {
                            let k = w.ncalls();
                            let q = w.req();
                            let mut f = Fut::new(made[j].call(q));
                            w.finish(k, true);
                            let _ = f.poll();
                        }
                    }
                }
                _ => {}
            }
            let bad = {
                let i = w.lock();
                makers.iter().find(|m| i.insts[m.0].polls + i.insts[m.0].calls > 0).map(|m| m.0)
            };
            chk!(c, bad.is_none(), "the service inside a shared maker was used itself: {:?}", bad);
        }
        if made.len() >= 2 {
            c.nontrivial();
        }
        drop(made);
        drop(makers);
        w.check_no_leak("shared maker");
    })
}

fn poll_stream<S: Stream + Unpin>(tk: &Tk, s: &mut S) -> Poll<Option<S::Item>> {
    tk.poll(|cx| Pin::new(s).poll_next(cx))
}

fn list(c: &Case) {
    fn go<T: IntoIterator<Item = Probe>>(c: &Case, mut l: ServiceList<T>, ids: &[usize], stop: usize)
    where
        ServiceList<T>: Unpin,
    {
        let tk = Tk::new();
        for (i, id) in ids.iter().enumerate() {
            if i == stop {
                return;
            }
            match poll_stream(&tk, &mut l) {
                Poll::Ready(Some(Ok(Change::Insert(k, p)))) => {
                    chk!(c, k == i && p.id == *id, "element {} of the list came out as key {} service s{} (wanted s{})", i, k, p.id, id);
                    ev!(c, "insert {} s{}", k, p.id);
                }
                Poll::Ready(Some(Ok(Change::Remove(k)))) => {
                    chk!(c, false, "a static list removed {}", k);
                }
                Poll::Ready(None) => {
                    chk!(c, false, "the list ended after {} of {}", i, ids.len());
                }
                _ => {
                    chk!(c, false, "the list waits");
                }
            }
        }
        for _ in 0..2 {
            let got = poll_stream(&tk, &mut l);
            chk!(c, matches!(got, Poll::Ready(None)), "a list of {} did not end", ids.len());
        }
    }
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Closed));
        let n = r.below(9) as usize;
        let svcs: Vec<Probe> = (0..n).map(|k| w.svc(k as u32)).collect();
        let ids: Vec<usize> = svcs.iter().map(|p| p.id).collect();
        let stop = if r.pct(20) { r.us(n + 1) } else { usize::MAX };
        match r.below(4) {
            0 => go(c, ServiceList::new::<Req>(svcs), &ids, stop),
            1 => go(c, ServiceList::new::<Req>(svcs.into_iter()), &ids, stop),
            2 => {
                let ids: Vec<usize> = ids.into_iter().rev().collect();
                go(c, ServiceList::new::<Req>(svcs.into_iter().rev()), &ids, stop)
            }
            _ => {
                let d: std::collections::VecDeque<Probe> = svcs.into();
                go(c, ServiceList::new::<Req>(d), &ids, stop)
            }
        }
        if n >= 2 {
            c.nontrivial();
        }
        let polls: u32 = w.lock().insts.iter().map(|i| i.polls + i.calls).sum();
        chk!(c, polls == 0, "a static list used its services");
        w.check_no_leak("list");
    })
}

enum Step {
    Insert(u8, usize),
    Remove(u8),
    Err(u64),
    End,
}

fn wrapped(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let (disc, h) = Disc::<u8, Probe>::new(c);
        match r.below(3) {
            0 => {
                let l = r.below(1000) as i64 - 500;
                wrapped_as(c, &w, h, Constant::new(disc, l), move |s: &Constant<Probe, i64>, _, _| (s.load() == l, format!("{} (constant {})", s.load(), l))).await
            }
            1 => {
                let d = PendingRequestsDiscover::new::<Req>(disc, CompleteOnResponse::default());
                wrapped_as(c, &w, h, d, |s, open, _| (format!("{:?}", s.load()) == format!("Count({})", open), format!("{:?} with {} in flight", s.load(), open))).await
            }
            _ => {
                let rtt = Duration::from_micros(*r.pick(&[1, 777, 30_000, 2_500_000]));
                let decay = Duration::from_millis(*r.pick(&[1, 50, 10_000]));
                let d = PeakEwmaDiscover::new::<Req>(disc, rtt, decay, CompleteOnResponse::default());
                wrapped_as(c, &w, h, d, move |s, open, age: Duration| {
                    let want = rtt.as_nanos() as f64 * (-(age.as_nanos() as f64) / decay.as_nanos() as f64).exp() * (open as f64 + 1.0);
                    let got = format!("{:?}", s.load());
                    let x: f64 = got.trim_start_matches("Cost(").trim_end_matches(')').parse().unwrap_or(f64::NAN);
                    ((x - want).abs() <= want.abs() * 1e-6 + 1e-9, format!("{} after {:?} with {} in flight, expected {} (default {:?}, decay {:?})", got, age, open, want, rtt, decay))
                })
                .await
            }
        }
        w.check_no_leak("wrapped discovery");
    })
}

async fn wrapped_as<D, S, F>(c: &Case, w: &World, h: DiscHandle<u8, Probe>, mut d: D, load: impl Fn(&S, u64, Duration) -> (bool, String))
where
    D: Stream<Item = Result<Change<u8, S>, DiscErr>> + Unpin,
    S: Service<Req, Error = Fail, Future = F>,
    F: Future<Output = Result<Resp, Fail>>,
{
    let r = c.rng.clone();
    let mut script: Vec<Step> = vec![];
    let mut at = 0;
    let mut pended: Option<Tk> = None;
    let (mut ins, mut errs, mut rems, mut used) = (0, 0, 0, 0);
    'ops: for _ in 0..r.range(6, 40) {
        if c.violated() {
            break;
        }
        if r.pct(50) {
            if !matches!(script.last(), Some(Step::End)) {
                let k = r.below(5) as u8;
                let s = match r.weighted(&[12, 6, 3, 1]) {
                    0 => {
                        let p = w.svc(k as u32);
                        let id = p.id;
                        h.send(DiscEv::Change(Change::Insert(k, p)));
                        Step::Insert(k, id)
                    }
                    1 => {
                        h.send(DiscEv::Change(Change::Remove(k)));
                        Step::Remove(k)
                    }
                    2 => {
                        let e = r.below(1000);
                        h.send(DiscEv::Err(e));
                        Step::Err(e)
                    }
                    _ => {
                        h.send(DiscEv::End);
                        Step::End
                    }
                };
                script.push(s);
                if let Some(tk) = pended.take() {
                    chk!(c, tk.woken(), "a change arrived but the consumer was not woken");
                }
            }
            continue;
        }
        let tk = Tk::new();
        let got = poll_stream(&tk, &mut d);
        match (script.get(at), got) {
            (None, Poll::Pending) => {
                pended = Some(tk);
                continue;
            }
            (Some(Step::Insert(k, id)), Poll::Ready(Some(Ok(Change::Insert(k2, mut s))))) => {
                ins += 1;
                chk!(c, *k == k2, "insertion of {} came out under {}", k, k2);
                ev!(c, "insert {} s{}", k2, id);
                let (ok, what) = load(&s, 0, Duration::ZERO);
                chk!(c, ok, "a freshly discovered service reports load {}", what);
                if r.pct(50) {
                    // it is the announced service
                    used += 1;
                    let tk = Tk::new();
                    let got = tk.poll(|cx| s.poll_ready(cx));
                    chk!(c, matches!(got, Poll::Ready(Ok(()))), "the discovered service is not ready: {:?}", got);
                    let n = w.ncalls();
                    let mut f = Fut::new(s.call(w.req()));
                    chk!(c, w.ncalls() == n + 1 && w.lock().calls[n].inst == *id, "the service announced for {} is not s{}", k, id);
                    let mut age = Duration::ZERO;
                    if r.pct(50) {
                        age = Duration::from_millis(r.range(1, 20));
                        advance(age.as_millis() as u64).await;
                    }
                    let (ok, what) = load(&s, 1, age);
                    chk!(c, ok, "load {}", what);
                    w.finish(n, true);
                    chk!(c, f.poll().is_ready(), "the discovered service did not answer");
                }
            }
            (Some(Step::Remove(k)), Poll::Ready(Some(Ok(Change::Remove(k2))))) => {
                rems += 1;
                chk!(c, *k == k2, "removal of {} came out as {}", k, k2);
                ev!(c, "remove {}", k);
            }
            (Some(Step::Err(e)), Poll::Ready(Some(Err(e2)))) => {
                errs += 1;
                chk!(c, *e == e2.0, "failure {} came out as {}", e, e2.0);
                ev!(c, "error {}", e);
            }
            (Some(Step::End), Poll::Ready(None)) => {
                ev!(c, "end");
                break 'ops;
            }
            (want, got) => {
                let what = match got {
                    Poll::Pending => "waits".to_string(),
                    Poll::Ready(None) => "ended".into(),
                    Poll::Ready(Some(Err(e))) => format!("failed {}", e.0),
                    Poll::Ready(Some(Ok(Change::Insert(k, _)))) => format!("inserted {}", k),
                    Poll::Ready(Some(Ok(Change::Remove(k)))) => format!("removed {}", k),
                };
                let want = match want {
                    None => "nothing".to_string(),
                    Some(Step::Insert(k, _)) => format!("insertion of {}", k),
                    Some(Step::Remove(k)) => format!("removal of {}", k),
                    Some(Step::Err(e)) => format!("failure {}", e),
                    Some(Step::End) => "the end".into(),
                };
                chk!(c, false, "the wrapped discovery {} where {} was announced", what, want);
            }
        }
        at += 1;
    }
    if ins > 1 && used > 0 && rems + errs > 0 {
        c.nontrivial();
    }
    drop(d);
    h.0.lock().unwrap().q.clear();
}

fn balance(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let ends = World::new(c, Plan::manual(Gate::Open));
        type Handles = BTreeMap<u64, DiscHandle<u8, Loaded>>;
        let handles: Arc<Mutex<Handles>> = Arc::new(Mutex::new(BTreeMap::new()));
        let (h2, c2) = (handles.clone(), c.clone());
        let maker = MapResponse::new(w.svc(0), move |x: Resp| {
            let (d, h) = Disc::<u8, Loaded>::new(&c2);
            h2.lock().unwrap().insert(x.id, h);
            d
        });
        let mut inst = 0;
        let mut mb: MakeBalance<_, Req> = match r.below(3) {
            0 => MakeBalance::new(maker),
            1 => MakeBalanceLayer::new().layer(maker),
            _ => {
                let m = MakeBalanceLayer::default().clone().layer(maker);
                inst = 1;
                let m2 = m.clone();
                drop(m);
                m2
            }
        };
        let mut bals: Vec<(u64, Balance<Disc<u8, Loaded>, Req>, Vec<usize>)> = vec![];
        let (mut calls, mut bad) = (0, 0);
        for _ in 0..r.range(10, 50) {
            if c.violated() {
                break;
            }
            match r.below(4) {
                0 if bals.len() < 4 => {
                    w.gate(inst, *r.pick(&[Gate::Open, Gate::Open, Gate::Open, Gate::Closed]));
                    let polls = w.lock().insts[inst].polls;
                    let tk = Tk::new();
                    let got = tk.poll(|cx| Service::poll_ready(&mut mb, cx));
                    same_ready(c, &w, inst, &got, polls);
                    if !matches!(got, Poll::Ready(Ok(()))) {
                        w.gate(inst, Gate::Open);
                        chk!(c, tk.woken(), "the waker did not reach the wrapped maker");
                        continue;
                    }
                    let k = w.ncalls();
                    let t = w.req();
                    let id = t.id;
                    let mut f = Fut::new(mb.call(t));
                    chk!(c, w.ncalls() == k + 1 && w.lock().calls[k].id == id, "target {} was not handed to the wrapped maker once", id);
                    chk!(c, f.poll().is_pending(), "a balancer came out before its discovery");
                    let succeed = r.pct(80);
                    w.finish(k, succeed);
                    chk!(c, f.tk.woken(), "the wrapped maker's answer did not wake the waiter");
                    match f.poll() {
                        Poll::Ready(Ok(b)) => {
                            chk!(c, succeed, "the maker failed but a balancer came out");
                            bals.push((id, b, vec![]));
                        }
                        Poll::Ready(Err(e)) => {
                            bad += 1;
                            chk!(c, !succeed && e.call == Some(k), "target {} failed with {:?}", id, e);
                        }
                        Poll::Pending => {
                            chk!(c, false, "the maker answered but no balancer came out");
                        }
                    }
                }
                1 if !bals.is_empty() => {
                    let b = r.us(bals.len());
                    if bals[b].2.len() >= 4 {
                        continue;
                    }
                    let p = ends.svc(bals[b].0 as u32);
                    let key = bals[b].2.len() as u8;
                    bals[b].2.push(p.id);
                    let h = handles.lock().unwrap().get(&bals[b].0).cloned();
                    if let Some(h) = h {
                        h.send(DiscEv::Change(Change::Insert(key, Loaded { p, load: Arc::new(AtomicU64::new(r.below(3))) })));
                    } else {
                        chk!(c, false, "no discovery was made for target {}", bals[b].0);
                    }
                }
                _ if !bals.is_empty() => {
                    let b = r.us(bals.len());
                    let (id, bal, svcs) = &mut bals[b];
                    let tk = Tk::new();
                    let got = tk.poll(|cx| bal.poll_ready(cx));
                    chk!(c, matches!(got, Poll::Ready(Ok(()))) == !svcs.is_empty() && !matches!(got, Poll::Ready(Err(_))), "balancer of target {} with {} endpoints says {:?}", id, svcs.len(), got);
                    if matches!(got, Poll::Ready(Ok(()))) {
                        calls += 1;
                        let k = ends.ncalls();
                        let mut f = Fut::new(bal.call(ends.req()));
                        chk!(c, ends.ncalls() == k + 1 && ends.lock().calls[k].group == *id as u32, "a request to target {} went to an endpoint of target {}", id, ends.lock().calls[k].group);
                        ends.finish(k, true);
                        chk!(c, f.poll().is_ready(), "no answer through the balancer");
                    }
                }
                _ => {}
            }
        }
        if bals.len() >= 2 && calls > 1 {
            c.nontrivial();
        }
        c.count("failed targets", bad);
        drop(bals);
        for h in handles.lock().unwrap().values() {
            h.0.lock().unwrap().q.clear();
        }
        drop(mb);
        w.check_no_leak("balancer maker");
        ends.check_no_leak("balancer endpoints");
    })
}

// ---------------------------------------------------------------- P27

/// A generator that starts with a script.
struct Script {
    xs: Vec<u64>,
    at: usize,
    rest: Rng,
}
impl TowerRng for Script {
    fn next_u64(&mut self) -> u64 {
        self.at += 1;
        match self.xs.get(self.at - 1) {
            Some(x) => *x,
            None => self.rest.u64(),
        }
    }
}
fn script(r: &Rng, xs: Vec<u64>) -> Script {
    Script { xs, at: 0, rest: r.fork() }
}

fn extreme(r: &Rng) -> u64 {
    let b = 1u64 << r.below(64);
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => b,
        3 => b.wrapping_sub(1),
        4 => !b,
        5 => u64::MAX - r.below(4096),
        6 => r.below(4096),
        _ => r.u64(),
    }
}

/// The same generator behind the different ways of holding one.
fn float_of(r: &Rng, x: u64) -> f64 {
    let mut s = script(r, vec![x]);
    match r.below(3) {
        0 => s.next_f64(),
        1 => Box::new(s).next_f64(),
        _ => {
            let mut b: Box<dyn TowerRng> = Box::new(s);
            b.next_f64()
        }
    }
}

fn float(c: &Case) {
    let r = c.rng.clone();
    let mut lo = [0u32; 8];
    for _ in 0..40 {
        let x = extreme(&r);
        let f = float_of(&r, x);
        chk!(c, (0.0..1.0).contains(&f), "generator output {:#x} gives the float {:e}", x, f);
        let exact = (x >> 11) as f64 / (1u64 << 53) as f64;
        chk!(c, (f - exact).abs() <= f64::EPSILON, "generator output {:#x} gives the float {:e}, its high-order bits are {:e}", x, f, exact);
        c.fp(x);
    }
    let mut d = Draw(r.fork());
    let n = 4000;
    for _ in 0..n {
        let f = d.next_f64();
        if !chk!(c, (0.0..1.0).contains(&f), "float {:e}", f) {
            return;
        }
        lo[(f * 8.0) as usize] += 1;
    }
    let chi: f64 = lo.iter().map(|k| (*k as f64 - n as f64 / 8.0).powi(2) / (n as f64 / 8.0)).sum();
    chk!(c, chi < 100.0, "floats fall into eighths as {:?}", lo);
    ev!(c, "eighths {:?}", lo);
    c.nontrivial();
}

fn range(c: &Case) {
    let r = c.rng.clone();
    // any range, extreme outputs
    for _ in 0..30 {
        let (a, b) = (extreme(&r), extreme(&r));
        let (a, b) = if a == b { (a.saturating_sub(1), a.saturating_sub(1) + 1) } else { (a.min(b), a.max(b)) };
        let mut s = script(&r, vec![extreme(&r), extreme(&r)]);
        let x = if r.pct(50) { s.next_range(a..b) } else { Box::new(s).next_range(a..b) };
        chk!(c, a <= x && x < b, "{} drawn from {}..{}", x, a, b);
        c.fp(x ^ a.rotate_left(17));
    }
    // small ranges are covered evenly
    let len = *r.pick(&[1, 2, 3, 5, 7, 10, 16]);
    let start = *r.pick(&[0, 1, 1000, u64::MAX - 20]);
    let mut d = Draw(r.fork());
    let mut hit = vec![0u32; len as usize];
    let n = 200 * len;
    for _ in 0..n {
        let x = d.next_range(start..start + len);
        if !chk!(c, x >= start && x - start < len, "{} drawn from {}..{}", x, start, start + len) {
            return;
        }
        hit[(x - start) as usize] += 1;
    }
    let chi: f64 = hit.iter().map(|k| (*k as f64 - 200.0).powi(2) / 200.0).sum();
    chk!(c, hit.iter().all(|k| *k > 0), "{} draws from {}..{} never gave some of its values: {:?}", n, start, start + len, hit);
    chk!(c, chi < 60.0 + 6.0 * len as f64, "{} draws from {}..{} are spread as {:?}", n, start, start + len, hit);
    // wide ranges are covered on both ends
    let wide = r.range(1 << 40, 1 << 62);
    let mut q = [0u32; 4];
    for _ in 0..400 {
        let x = d.next_range(start.min(1000)..start.min(1000) + wide) - start.min(1000);
        q[((x as u128 * 4) / wide as u128).min(3) as usize] += 1;
    }
    chk!(c, q.iter().all(|k| *k > 30), "400 draws from a range of {} fall into its quarters as {:?}", wide, q);
    // the widest ranges too: remainders favour their lower part, but every quarter is reached
    let vast = r.range(1 << 63, u64::MAX);
    let mut v = [0u32; 4];
    for _ in 0..400 {
        v[((d.next_range(0..vast) as u128 * 4) / vast as u128).min(3) as usize] += 1;
    }
    chk!(c, v.iter().all(|k| *k > 8), "400 draws from a range of {} fall into its quarters as {:?}", vast, v);
    ev!(c, "len {} start {} wide {} spread {:?} {:?}", len, start, wide, hit, q);
    c.nontrivial();
}

/// A hasher that records what it is fed.
#[derive(Clone)]
struct Recording {
    fed: Arc<Mutex<Vec<Vec<u8>>>>,
    key: u64,
}
struct RecHasher {
    fed: Arc<Mutex<Vec<Vec<u8>>>>,
    bytes: Vec<u8>,
    h: u64,
}
impl BuildHasher for Recording {
    type Hasher = RecHasher;
    fn build_hasher(&self) -> RecHasher {
        RecHasher { fed: self.fed.clone(), bytes: vec![], h: self.key }
    }
}
impl Hasher for RecHasher {
    fn write(&mut self, b: &[u8]) {
        self.bytes.extend_from_slice(b);
        for x in b {
            self.h = rng_mix(self.h ^ *x as u64);
        }
    }
    fn finish(&self) -> u64 {
        self.fed.lock().unwrap().push(self.bytes.clone());
        self.h
    }
}
fn rng_mix(x: u64) -> u64 {
    crate::kit::rng::mix(x)
}

fn hasher(c: &Case) {
    let r = c.rng.clone();
    let n = r.range(2, 300) as usize;
    let fed = Arc::new(Mutex::new(vec![]));
    let key = r.u64();
    let mk = |key| HasherRng::with_hasher(Recording { fed: fed.clone(), key });
    let mut a = mk(key);
    let mut b = mk(key);
    let cut = r.us(n);
    let mut cloned = None;
    let mut seen = HashSet::new();
    let mut stuck = 0;
    for i in 0..n {
        if i == cut {
            cloned = Some(a.clone());
        }
        let before = fed.lock().unwrap().len();
        let x = a.next_u64();
        let inputs = fed.lock().unwrap()[before..].to_vec();
        let y = b.next_u64();
        chk!(c, x == y, "two generators over the same hasher differ at draw {}", i);
        if let Some(k) = cloned.as_mut() {
            let z = k.next_u64();
            chk!(c, x == z, "a clone made at draw {} differs from its original at draw {}", cut, i);
        }
        if !inputs.is_empty() {
            stuck += 1;
        }
        chk!(c, seen.insert(x), "draw {} repeats an earlier value {:#x}", i, x);
        c.fp(x);
    }
    chk!(c, stuck == n, "the hasher was consulted for {} of {} draws", stuck, n);
    let mut other = mk(key ^ 1);
    let mut again = mk(key);
    let same = (0..8).filter(|_| other.next_u64() == again.next_u64()).count();
    chk!(c, same < 8, "generators over different hashers agree");
    // standard hashers
    let mut d = HasherRng::<BuildHasherDefault<std::collections::hash_map::DefaultHasher>>::with_hasher(Default::default());
    let mut e = if r.pct(50) { HasherRng::new() } else { HasherRng::default() };
    let mut f = HasherRng::new();
    let (mut bits, mut equal) = (0u32, 0);
    let m = 256;
    let mut vals = HashSet::new();
    for _ in 0..m {
        let x = d.next_u64();
        let y = e.next_u64();
        bits += y.count_ones();
        if y == f.next_u64() {
            equal += 1;
        }
        vals.insert(x);
        vals.insert(y);
        let z = e.next_f64();
        chk!(c, (0.0..1.0).contains(&z), "float {:e}", z);
    }
    chk!(c, vals.len() == 2 * m as usize, "{} distinct values in {} draws", vals.len(), 2 * m);
    chk!(c, equal == 0, "two new generators agree on {} of {} draws", equal, m);
    chk!(c, (m * 24..m * 40).contains(&bits), "{} of {} bits set", bits, m * 64);
    ev!(c, "{} draws, clone at {}", n, cut);
    c.nontrivial();
}
