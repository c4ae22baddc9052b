//! P12 ready cache, P13 p2c balancer.
use crate::kit::*;
use futures::Stream;
use std::collections::{BTreeMap, VecDeque};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::task::{Context, Waker};
use tower::balance::error::Discover as DiscoverError;
use tower::balance::p2c::Balance;
use tower::discover::Change;
use tower::load::Load;
use tower::ready_cache::ReadyCache;
use tower::util::rng::Rng as TowerRng;

pub fn p12() -> Prop {
    Prop {
        id: "P12",
        rule: "seeded random sequences of push, evict, readiness polls, checks, calls and endpoint state changes over few keys, compared operation by operation with a map model; non-trivial: promotion, replacement, eviction and failure all occurred",
        assumptions: &["fewer than 32 services pending at once, so one poll reaches all that were woken"],
        scenarios: vec![Scenario::new("model", 8000, cache_model), Scenario::new("large", 25, super::large::cache)],
    }
}
pub fn p13() -> Prop {
    Prop {
        id: "P13",
        rule: "seeded random discovery streams, endpoint readiness, failures, loads and calls against a membership model; scheduled request traffic; long draws compared with the two-choice distribution; non-trivial: requests were dispatched with two or more endpoints ready and membership changed",
        assumptions: &["fewer than 32 endpoints pending at once", "loads do not change during one readiness check"],
        scenarios: vec![
            Scenario::new("membership", 6000, membership),
            Scenario::new("flaky", 3000, flaky),
            Scenario::new("traffic", 1500, traffic),
            Scenario::new("distribution", 150, distribution), Scenario::new("large", 25, super::large::balance),
        ],
    }
}

// ---------------------------------------------------------------- P12

#[derive(Default)]
struct CacheModel {
    pending: BTreeMap<u8, usize>,
    ready: BTreeMap<u8, usize>,
    /// cancelled, not yet dropped
    zombies: Vec<usize>,
}

fn cache_model(c: &Case) {
    let r = c.rng.clone();
    sim(async {
        let w = World::new(c, Plan::manual(Gate::Closed));
        let mut cache: ReadyCache<u8, Probe, Req> = ReadyCache::default();
        let mut m = CacheModel::default();
        let tk = Tk::new();
        // services whose readiness poll registered tk
        let mut seen: Vec<usize> = vec![];
        let mut waiting = false;
        let crowd = r.pct(4);
        let keys = if crowd { r.range(6, 90) } else { r.range(1, 5) };
        let mut futs = vec![];
        let (mut promoted, mut replaced, mut evicted, mut failed, mut demoted) = (0u64, 0u64, 0u64, 0u64, 0u64);
        for _ in 0..r.range(20, 120) {
            if c.violated() {
                break;
            }
            match r.weighted(&[14, 8, 26, 18, 14, 18, 5]) {
                0 => {
                    for _ in 0..if crowd && r.pct(30) { r.range(10, 100) } else { 1 } {
                        let k = r.below(keys) as u8;
                        if m.pending.len() + m.zombies.len() > if crowd { 120 } else { 24 } {
                            break;
                        }
                        let p = w.svc(k as u32);
                        let id = p.id;
                        w.lock().insts[id].gate = *r.pick(&[Gate::Closed, Gate::Closed, Gate::Open, Gate::Open, Gate::Err]);
                        ev!(c, "push {} s{}", k, id);
                        cache.push(k, p);
                        if let Some(old) = m.pending.insert(k, id) {
                            m.zombies.push(old);
                            if waiting && seen.contains(&old) {
                                chk!(c, tk.woken(), "a pending service was replaced and its task not woken to drop it");
                                waiting = false;
                            }
                        }
                    }
                }
                1 => {
                    let k = r.below(keys) as u8;
                    let was_p = m.pending.remove(&k);
                    let was_r = m.ready.remove(&k);
                    let got = cache.evict(&k);
                    ev!(c, "evict {} -> {}", k, got);
                    chk!(c, got == (was_p.is_some() || was_r.is_some()), "evict of {} returned {}", k, got);
                    if let Some(z) = was_r {
                        chk!(c, w.lock().insts[z].dropped, "the evicted ready service s{} was not dropped", z);
                    }
                    if let Some(z) = was_p {
                        m.zombies.push(z);
                        if waiting && seen.contains(&z) {
                            chk!(c, tk.woken(), "a pending service was evicted and its task not woken to drop it");
                        }
                    }
                    evicted += got as u64;
                }
                2 => {
                    let mut rounds = 0;
                    loop {
                        rounds += 1;
                        if rounds > 3000 {
                            c.fail("poll_pending keeps waking its task");
                            break;
                        }
                        let x = tk.poll(|cx| cache.poll_pending(cx));
                        match x {
                            Poll::Ready(Err(e)) => {
                                let k = e.0;
                                let f = find_fail(&e);
                                ev!(c, "poll_pending: {} failed {:?}", k, f);
                                let id = m.pending.remove(&k);
                                chk!(c, id.is_some() && f.as_ref().map(|f| f.inst) == id, "failure of {} reported for {:?}, pending there is {:?}", k, f, id);
                                if let Some(id) = id {
                                    chk!(c, w.lock().insts[id].dropped, "the failed service s{} was kept", id);
                                    chk!(c, w.lock().insts[id].gate == Gate::Err, "failure of a working service");
                                    failed += 1;
                                }
                                if c.violated() {
                                    break;
                                }
                            }
                            Poll::Ready(Ok(())) => {
                                waiting = false;
                                settle_pending(c, &w, &mut m, &mut promoted, &mut replaced);
                                chk!(c, m.pending.is_empty(), "poll_pending is done with {:?} still pending", m.pending);
                                break;
                            }
                            Poll::Pending => {
                                if tk.woken() {
                                    continue;
                                }
                                waiting = true;
                                settle_pending(c, &w, &mut m, &mut promoted, &mut replaced);
                                chk!(c, !m.pending.is_empty(), "poll_pending waits for nothing");
                                seen = m.pending.values().copied().collect();
                                break;
                            }
                        }
                    }
                }
                3 => {
                    // check
                    let by_key = r.pct(50);
                    let (k, idx) = if by_key || m.ready.is_empty() {
                        let k = r.below(keys) as u8;
                        (k, cache.get_ready(&k).map(|x| x.0))
                    } else {
                        let i = r.us(cache.ready_len().max(1));
                        match cache.get_ready_index(i) {
                            Some((k, _)) => (*k, Some(i)),
                            None => {
                                chk!(c, m.ready.is_empty(), "no ready service at {} of {}", i, m.ready.len());
                                continue;
                            }
                        }
                    };
                    let t = Tk::new();
                    let got = match idx {
                        Some(i) if !by_key => t.poll(|cx| Poll::Ready(cache.check_ready_index(cx, i))),
                        None if !by_key => t.poll(|cx| Poll::Ready(cache.check_ready_index(cx, 1000))),
                        _ => t.poll(|cx| Poll::Ready(cache.check_ready(cx, &k))),
                    };
                    let Poll::Ready(got) = got else { unreachable!() };
                    let id = m.ready.get(&k).copied();
                    let Some(id) = id else {
                        chk!(c, matches!(got, Ok(false)), "check of {} which is not ready gave {:?}", k, got.is_ok());
                        continue;
                    };
                    let (ready, gate) = {
                        let i = w.lock();
                        (i.insts[id].ready, i.insts[id].gate)
                    };
                    ev!(c, "check {} s{} ready {} gate {:?} -> {:?}", k, id, ready, gate, got.as_ref().map_err(|_| ()));
                    match got {
                        Ok(true) => {
                            chk!(c, ready, "check reports the unready s{} as ready", id);
                        }
                        Ok(false) => {
                            chk!(c, !ready && gate == Gate::Closed, "check reports the ready s{} as not ready", id);
                            m.ready.remove(&k);
                            demoted += 1;
                            if m.pending.contains_key(&k) {
                                chk!(c, w.lock().insts[id].dropped, "the replaced s{} was not dropped", id);
                            } else {
                                m.pending.insert(k, id);
                            }
                        }
                        Err(e) => {
                            chk!(c, gate == Gate::Err && e.0 == k && find_fail(&e).map(|f| f.inst) == Some(id), "wrong failure {:?}", e);
                            m.ready.remove(&k);
                            chk!(c, w.lock().insts[id].dropped, "the failed service s{} was kept", id);
                            failed += 1;
                        }
                    }
                }
                4 => {
                    // call something that is ready right now
                    let ks: Vec<u8> = m.ready.iter().filter(|(_, id)| w.lock().insts[**id].ready).map(|(k, _)| *k).collect();
                    if ks.is_empty() {
                        continue;
                    }
                    let k = *r.pick(&ks);
                    let id = m.ready[&k];
                    let before = w.ncalls();
                    let req = w.req();
                    let rid = req.id;
                    let f = if r.pct(50) {
                        cache.call_ready(&k, req)
                    } else {
                        match cache.get_ready(&k).map(|x| x.0) {
                            Some(i) => cache.call_ready_index(i, req),
                            None => {
                                c.fail(format!("{} is not among the ready", k));
                                break;
                            }
                        }
                    };
                    ev!(c, "call {} s{}", k, id);
                    let ok = w.ncalls() == before + 1 && w.lock().calls[before].id == rid && w.lock().calls[before].inst == id;
                    chk!(c, ok, "the call did not reach s{} once", id);
                    m.ready.remove(&k);
                    if m.pending.contains_key(&k) {
                        chk!(c, w.lock().insts[id].dropped, "the replaced s{} was kept after its call", id);
                        replaced += 1;
                    } else {
                        m.pending.insert(k, id);
                    }
                    let mut f = Fut::new(f);
                    let good = r.pct(80);
                    w.finish(before, good);
                    match f.poll() {
                        Poll::Ready(x) => {
                            chk!(c, x.is_ok() == good, "outcome changed");
                        }
                        Poll::Pending => {
                            chk!(c, false, "outcome withheld");
                        }
                    }
                    futs.push(f);
                }
                5 => {
                    // an endpoint changes
                    let all: Vec<usize> = m.pending.values().chain(m.ready.values()).copied().collect();
                    if all.is_empty() {
                        continue;
                    }
                    let id = *r.pick(&all);
                    let is_ready = m.ready.values().any(|x| *x == id);
                    if is_ready {
                        if r.pct(50) {
                            w.revoke(id, *r.pick(&[Gate::Closed, Gate::Closed, Gate::Err]));
                        } else if !w.lock().insts[id].ready {
                            // and back again
                            w.lock().insts[id].gate = Gate::Open;
                            w.lock().insts[id].ready = true;
                        }
                    } else {
                        let g = *r.pick(&[Gate::Open, Gate::Open, Gate::Closed, Gate::Err]);
                        w.gate(id, g);
                        if waiting && seen.contains(&id) && g != Gate::Closed {
                            chk!(c, tk.woken(), "s{} changed to {:?} and the task waiting in poll_pending was not woken", id, g);
                        }
                    }
                }
                _ => {
                    // mutable access does not disturb anything
                    for (_, p) in cache.iter_ready_mut() {
                        let _ = p.id;
                    }
                    if let Some(k) = m.ready.keys().next() {
                        let x = cache.get_ready_mut(k).map(|x| x.2.id);
                        chk!(c, x == m.ready.get(k).copied(), "get_ready_mut");
                        let i = cache.get_ready(k).map(|x| x.0).unwrap_or(usize::MAX);
                        let y = cache.get_ready_index_mut(i).map(|(kk, p)| (*kk, p.id));
                        chk!(c, y == x.map(|x| (*k, x)), "get_ready_index_mut({}) is {:?}, expected {:?} under {}", i, y, x, k);
                    }
                }
            }
            // the whole public state against the model
            let z = m.zombies.iter().filter(|z| !w.lock().insts[**z].dropped).count();
            let (p, rl) = (cache.pending_len(), cache.ready_len());
            chk!(c, rl == m.ready.len(), "{} ready services, expected {:?}", rl, m.ready);
            chk!(c, p >= m.pending.len() && p <= m.pending.len() + z, "{} pending services, expected {:?} and at most {} on their way out", p, m.pending, z);
            chk!(c, cache.len() == p + rl && cache.is_empty() == (p + rl == 0), "len {} is_empty {}", cache.len(), cache.is_empty());
            for k in 0..keys as u8 {
                chk!(c, cache.pending_contains(&k) == m.pending.contains_key(&k), "pending_contains({})", k);
                let g = cache.get_ready(&k).map(|(i, kk, p)| (i, *kk, p.id));
                chk!(c, g.map(|x| x.2) == m.ready.get(&k).copied(), "ready under {}: {:?}, expected {:?}", k, g, m.ready.get(&k));
                if let Some((i, kk, id)) = g {
                    let by = cache.get_ready_index(i).map(|(k, p)| (*k, p.id));
                    chk!(c, kk == k && by == Some((k, id)), "index and key disagree");
                }
            }
            let mut it: Vec<(u8, usize)> = cache.iter_ready().map(|(k, p)| (*k, p.id)).collect();
            it.sort_unstable();
            chk!(c, it == m.ready.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "iteration gives {:?}", it);
            for id in m.pending.values().chain(m.ready.values()) {
                chk!(c, !w.lock().insts[*id].dropped, "s{} was lost", id);
            }
        }
        c.count("promotions", promoted);
        c.count("replacements", replaced);
        c.count("evictions", evicted);
        c.count("failures", failed);
        c.count("demotions", demoted);
        if promoted > 0 && replaced > 0 && evicted > 0 && failed > 0 {
            c.nontrivial();
        }
        drop((cache, futs));
        w.check_no_leak("ready cache");
    });
}

/// After a complete poll: cancelled ones are gone, those that could become ready are.
fn settle_pending(c: &Case, w: &World, m: &mut CacheModel, promoted: &mut u64, replaced: &mut u64) {
    for z in m.zombies.drain(..) {
        chk!(c, w.lock().insts[z].dropped, "the evicted or replaced pending service s{} was not dropped", z);
    }
    let now: Vec<(u8, usize)> = m.pending.iter().map(|(k, v)| (*k, *v)).collect();
    for (k, id) in now {
        let (gate, ready) = {
            let i = w.lock();
            (i.insts[id].gate, i.insts[id].ready)
        };
        if ready {
            m.pending.remove(&k);
            *promoted += 1;
            if let Some(old) = m.ready.insert(k, id) {
                *replaced += 1;
                chk!(c, w.lock().insts[old].dropped, "s{} was kept after its replacement s{} became ready", old, id);
            }
        } else {
            chk!(c, gate == Gate::Closed, "s{} was not promoted or reported although its gate is {:?}", id, gate);
        }
    }
}

// ---------------------------------------------------------------- P13

/// A probe reporting a load set from outside.
pub struct Loaded {
    pub p: Probe,
    pub load: Arc<AtomicU64>,
}
impl Service<Req> for Loaded {
    type Response = Resp;
    type Error = Fail;
    type Future = RespFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Fail>> {
        self.p.poll_ready(cx)
    }
    fn call(&mut self, req: Req) -> RespFut {
        self.p.call(req)
    }
}
impl Load for Loaded {
    type Metric = u64;
    fn load(&self) -> u64 {
        self.load.load(SeqCst)
    }
}

pub enum DiscEv<K, S> {
    Change(Change<K, S>),
    Err(u64),
    End,
}
pub struct DiscState<K, S> {
    pub q: VecDeque<DiscEv<K, S>>,
    pub waker: Option<Waker>,
    pub ended: bool,
}
/// Discovery scripted by the harness; the stream monitors its consumer.
pub struct Disc<K, S> {
    pub c: Case,
    pub st: Arc<Mutex<DiscState<K, S>>>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DiscErr(pub u64);
impl std::fmt::Display for DiscErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "discovery failure {}", self.0)
    }
}
impl std::error::Error for DiscErr {}

impl<K, S> Disc<K, S> {
    pub fn new(c: &Case) -> (Disc<K, S>, DiscHandle<K, S>) {
        let st = Arc::new(Mutex::new(DiscState { q: VecDeque::new(), waker: None, ended: false }));
        (Disc { c: c.clone(), st: st.clone() }, DiscHandle(st))
    }
}
pub struct DiscHandle<K, S>(pub Arc<Mutex<DiscState<K, S>>>);
impl<K, S> Clone for DiscHandle<K, S> {
    fn clone(&self) -> Self {
        DiscHandle(self.0.clone())
    }
}
impl<K, S> DiscHandle<K, S> {
    pub fn send(&self, e: DiscEv<K, S>) {
        let w = {
            let mut s = self.0.lock().unwrap();
            s.q.push_back(e);
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl<K, S> Unpin for Disc<K, S> {}
impl<K, S> Stream for Disc<K, S> {
    type Item = Result<Change<K, S>, DiscErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut s = self.st.lock().unwrap();
        if s.ended {
            drop(s);
            self.c.fail("the discovery stream was polled again after it ended");
            return Poll::Ready(None);
        }
        match s.q.pop_front() {
            Some(DiscEv::Change(x)) => Poll::Ready(Some(Ok(x))),
            Some(DiscEv::Err(e)) => Poll::Ready(Some(Err(DiscErr(e)))),
            Some(DiscEv::End) => {
                s.ended = true;
                Poll::Ready(None)
            }
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

/// tower's generator trait on top of the case's generator
pub struct Draw(pub Rng);
impl TowerRng for Draw {
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
}

struct Ep {
    inst: usize,
    key: u8,
    load: Arc<AtomicU64>,
    removed: bool,
    /// a later insertion under the same key was applied
    superseded: bool,
    /// was ready when superseded, so it serves on
    lame: bool,
}

enum Sent {
    Insert(u8, usize, Arc<AtomicU64>),
    Remove(u8),
    Err(u64),
    End,
}

fn membership(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Closed));
        let (disc, h) = Disc::new(c);
        let mut bal: Balance<Disc<u8, Loaded>, Req> = if r.pct(80) { Balance::from_rng(disc, Draw(r.fork())) } else { Balance::new(disc) };
        let crowd = r.pct(4);
        let keys = if crowd { r.range(6, 80) } else { r.range(1, 6) };
        let mut eps: Vec<Ep> = vec![];
        let mut sent: VecDeque<Sent> = VecDeque::new();
        let tk = Tk::new();
        let mut waiting = false;
        let mut ended = false;
        // candidates and their loads when the balancer went from not ready to ready, and again
        // whenever discovery changed something while it was
        let mut drawn: Vec<Vec<(usize, u64)>> = vec![];
        let mut ready = false;
        let mut carried = false;
        let mut multi = 0u64;
        let mut changes = 0u64;
        let mut futs = vec![];
        let same_load = r.pct(15);
        for step in 0..r.range(20, 130) {
            if c.violated() {
                break;
            }
            match r.weighted(&[14, 6, 30, 22, 18, 8, 1, 1]) {
                0 if !ended && eps.len() < if crowd { 150 } else { 26 } => {
                    for _ in 0..if crowd && r.pct(40) { r.range(5, 60) } else { 1 } {
                        let k = r.below(keys) as u8;
                        let p = w.svc(k as u32);
                        let id = p.id;
                        w.lock().insts[id].gate = *r.pick(&[Gate::Closed, Gate::Open, Gate::Open, Gate::Err]);
                        let load = Arc::new(AtomicU64::new(if same_load { 1 } else { r.below(6) }));
                        ev!(c, "discover insert {} s{} load {} gate {:?}", k, id, load.load(SeqCst), w.lock().insts[id].gate);
                        sent.push_back(Sent::Insert(k, id, load.clone()));
                        h.send(DiscEv::Change(Change::Insert(k, Loaded { p, load })));
                        if waiting {
                            chk!(c, tk.woken(), "an insertion did not wake the waiting task");
                            waiting = false;
                        }
                    }
                }
                1 if !ended => {
                    let k = r.below(keys) as u8;
                    ev!(c, "discover remove {}", k);
                    sent.push_back(Sent::Remove(k));
                    h.send(DiscEv::Change(Change::Remove(k)));
                }
                2 => {
                    // readiness check, driven to quiescence
                    let mut rounds = 0;
                    let was_ready: Vec<bool> = eps.iter().map(|e| w.lock().insts[e.inst].ready).collect();
                    let got = loop {
                        let x = tk.poll(|cx| bal.poll_ready(cx));
                        rounds += 1;
                        if x.is_pending() && tk.woken() && rounds < 1000 {
                            continue;
                        }
                        break x;
                    };
                    // what discovery has delivered by now
                    let mut fail = None;
                    let mut disturbed = false;
                    while let Some(s) = sent.pop_front() {
                        match s {
                            Sent::Insert(k, inst, load) => {
                                for (i, e) in eps.iter_mut().enumerate() {
                                    if e.key == k && !e.removed && !e.superseded {
                                        e.superseded = true;
                                        e.lame = was_ready.get(i).copied().unwrap_or(false);
                                    }
                                }
                                eps.push(Ep { inst, key: k, load, removed: false, superseded: false, lame: false });
                                changes += 1;
                                disturbed = true;
                            }
                            Sent::Remove(k) => {
                                for (i, e) in eps.iter_mut().enumerate().filter(|(_, e)| e.key == k) {
                                    if !e.removed && was_ready.get(i).copied().unwrap_or(false) {
                                        // the choice is made again
                                        drawn.clear();
                                    }
                                    e.removed = true;
                                }
                                changes += 1;
                                disturbed = true;
                            }
                            Sent::Err(x) => {
                                fail = Some(x);
                                break;
                            }
                            Sent::End => {}
                        }
                    }
                    match (&got, fail) {
                        (Poll::Ready(Err(e)), Some(x)) => {
                            ev!(c, "poll_ready -> discovery error");
                            let okk = has_err::<DiscoverError>(&**e) && find_err::<DiscErr>(&**e) == Some(DiscErr(x));
                            chk!(c, okk, "the discovery failure {} was reported as {}", x, e);
                            waiting = false;
                            ready = false;
                            carried = true;
                            // changes before the failure were taken in; the rest follows
                            continue;
                        }
                        (Poll::Ready(Err(e)), None) => {
                            c.fail(format!("the balancer failed although discovery did not: {}", e));
                            break;
                        }
                        (_, Some(_)) => {
                            c.fail("a discovery failure was swallowed");
                            break;
                        }
                        _ => {}
                    }
                    let i = w.lock();
                    // a failed replacement leaves the old one in charge
                    for k in 0..keys as u8 {
                        let newest = eps.iter().rposition(|e| e.key == k && !e.removed);
                        if let Some(n) = newest {
                            if i.insts[eps[n].inst].errored {
                                eps[n].removed = true;
                                if let Some(o) = eps.iter().rposition(|e| e.key == k && !e.removed && e.lame && !i.insts[e.inst].dropped && !i.insts[e.inst].errored) {
                                    eps[o].superseded = false;
                                    eps[o].lame = false;
                                }
                            } else if i.insts[eps[n].inst].ready {
                                for e in eps[..n].iter_mut().filter(|e| e.key == k && e.lame) {
                                    e.removed = true;
                                }
                            }
                        }
                    }
                    let mut can = vec![];
                    for e in &eps {
                        let x = &i.insts[e.inst];
                        let live = !e.removed && !x.errored && (!e.superseded || e.lame);
                        if !live {
                            chk!(c, x.dropped, "s{} is removed, replaced or failed and still held", e.inst);
                            continue;
                        }
                        chk!(c, !x.dropped, "the live endpoint s{} was dropped", e.inst);
                        chk!(c, x.ready || x.gate == Gate::Closed, "the live endpoint s{} with gate {:?} was not driven", e.inst, x.gate);
                        if x.ready {
                            can.push((e.inst, e.load.load(SeqCst)));
                        }
                    }
                    let held = eps.iter().filter(|e| !i.insts[e.inst].dropped).count();
                    drop(i);
                    ev!(c, "poll_ready -> {:?} candidates {:?}", got, can);
                    chk!(c, bal.len() == held && bal.is_empty() == (held == 0), "len {} is_empty {} with {} endpoints", bal.len(), bal.is_empty(), held);
                    match got {
                        Poll::Ready(_) => {
                            if !chk!(c, !can.is_empty(), "ready without a ready endpoint") {
                                break;
                            }
                            if !ready && !carried {
                                drawn.clear();
                            }
                            if !ready || disturbed {
                                drawn.push(can);
                            }
                            carried = false;
                            ready = true;
                            waiting = false;
                        }
                        Poll::Pending => {
                            chk!(c, can.is_empty(), "not ready although {:?} are", can);
                            ready = false;
                            carried = false;
                            drawn.clear();
                            waiting = true;
                        }
                    }
                }
                3 if ready => {
                    // loads move after the draw as well
                    let before = w.ncalls();
                    let req = w.req();
                    let id = req.id;
                    let f = bal.call(req);
                    ready = false;
                    let made = w.ncalls() - before;
                    if !chk!(c, made == 1 && w.lock().calls[before].id == id, "the request went to {} endpoints", made) {
                        break;
                    }
                    let inst = w.lock().calls[before].inst;
                    let k = eps.iter().position(|e| e.inst == inst);
                    let Some(k) = k else {
                        c.fail("call to an unknown endpoint");
                        break;
                    };
                    ev!(c, "call -> s{}", inst);
                    chk!(c, !eps[k].removed, "a request was sent to the removed or replaced s{}", inst);
                    chk!(c, !w.lock().insts[inst].errored, "a request was sent to the failed s{}", inst);
                    // it must have been a possible outcome of one of the draws, it or the endpoint
                    // whose place it took under the same key
                    let key = eps[k].key;
                    let fits = |can: &Vec<(usize, u64)>| {
                        can.iter().any(|(i, l)| {
                            let same = *i == inst || (*i < inst && eps.iter().any(|e| e.inst == *i && e.key == key));
                            same && (can.len() < 2 || can.iter().any(|x| x.0 != *i && x.1 >= *l))
                        })
                    };
                    chk!(c, drawn.iter().any(fits), "s{} was preferred although no two of those ready give it: (endpoint, load) {:?}", inst, drawn);
                    multi += drawn.iter().any(|d| d.len() > 1) as u64;
                    drawn.clear();
                    carried = false;
                    if eps[k].lame {
                        eps[k].removed = true;
                    }
                    let mut f = Fut::new(f);
                    let ok = r.pct(70);
                    w.finish(before, ok);
                    match f.poll() {
                        Poll::Ready(Ok(x)) => {
                            chk!(c, ok && x.call == before, "wrong response");
                        }
                        Poll::Ready(Err(e)) => {
                            chk!(c, !ok && find_fail(&*e).and_then(|f| f.call) == Some(before), "wrong error");
                        }
                        Poll::Pending => {
                            chk!(c, false, "response withheld");
                        }
                    }
                    futs.push(f);
                }
                4 => {
                    let i = w.lock();
                    let idle: Vec<usize> = (0..eps.len())
                        .filter(|&k| {
                            let x = &i.insts[eps[k].inst];
                            !x.dropped && !x.ready && !x.errored && !eps[k].removed && !eps[k].superseded
                        })
                        .collect();
                    drop(i);
                    if idle.is_empty() {
                        continue;
                    }
                    let k = *r.pick(&idle);
                    let g = *r.pick(&[Gate::Open, Gate::Open, Gate::Open, Gate::Closed, Gate::Closed, Gate::Err]);
                    w.gate(eps[k].inst, g);
                    if waiting && g == Gate::Open {
                        chk!(c, tk.woken(), "s{} became ready and the task waiting for an endpoint was not woken", eps[k].inst);
                    }
                }
                5 if !same_load => {
                    if !eps.is_empty() {
                        let k = r.us(eps.len());
                        eps[k].load.store(r.below(6), SeqCst);
                    }
                }
                6 if !ended && step > 10 => {
                    ev!(c, "discovery ends");
                    ended = true;
                    sent.push_back(Sent::End);
                    h.send(DiscEv::End);
                }
                7 if !ended => {
                    let x = r.below(1000);
                    ev!(c, "discovery fails {}", x);
                    sent.push_back(Sent::Err(x));
                    h.send(DiscEv::Err(x));
                    if waiting {
                        chk!(c, tk.woken(), "the discovery failure did not wake the waiting task");
                    }
                }
                _ => {}
            }
        }
        c.count("changes applied", changes);
        c.count("dispatches among several", multi);
        if multi > 0 && changes > 2 {
            c.nontrivial();
        }
        drop((bal, futs, h));
        w.check_no_leak("balance");
    });
}

/// Endpoints losing their readiness after having reported it.
fn flaky(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Closed));
        let (disc, h) = Disc::new(c);
        let mut bal: Balance<Disc<u8, Loaded>, Req> = Balance::from_rng(disc, Draw(r.fork()));
        let n = if r.pct(5) { r.range(8, 70) } else { r.range(1, 7) } as u8;
        for k in 0..n {
            let p = w.svc(k as u32);
            h.send(DiscEv::Change(Change::Insert(k, Loaded { p, load: Arc::new(AtomicU64::new(r.below(4))) })));
        }
        if r.pct(50) {
            h.send(DiscEv::End);
        }
        let tk = Tk::new();
        let mut waiting = false;
        let mut ready = false;
        let (mut lost, mut calls) = (0u64, 0u64);
        let mut failed: Vec<usize> = vec![];
        for _ in 0..r.range(20, 120) {
            if c.violated() {
                break;
            }
            let k = r.us(n as usize);
            match r.weighted(&[25, 20, 25, 15]) {
                0 => {
                    let mut rounds = 0;
                    let got = loop {
                        let x = tk.poll(|cx| bal.poll_ready(cx));
                        rounds += 1;
                        if x.is_pending() && tk.woken() && rounds < 1000 {
                            continue;
                        }
                        break x;
                    };
                    let can: Vec<usize> = (0..n as usize)
                        .filter(|&k| {
                            let i = w.lock();
                            !i.insts[k].errored && (i.insts[k].ready || i.insts[k].gate == Gate::Open)
                        })
                        .collect();
                    ev!(c, "poll_ready -> {:?} can {:?}", got, can);
                    match got {
                        Poll::Ready(Ok(())) => {
                            chk!(c, !can.is_empty(), "ready without a ready endpoint");
                            ready = true;
                            waiting = false;
                        }
                        Poll::Ready(Err(e)) => c.fail(format!("an endpoint's failure failed the balancer: {}", e)),
                        Poll::Pending => {
                            chk!(c, can.is_empty(), "not ready although {:?} are", can);
                            ready = false;
                            waiting = true;
                        }
                    }
                    for x in 0..n as usize {
                        let i = w.lock();
                        if i.insts[x].errored {
                            chk!(c, i.insts[x].dropped, "the failed s{} is still held", x);
                            if !failed.contains(&x) {
                                failed.push(x);
                            }
                        } else {
                            chk!(c, !i.insts[x].dropped, "the live s{} was dropped", x);
                        }
                    }
                }
                1 if ready => {
                    // the contract automaton judges the target's readiness
                    let before = w.ncalls();
                    let f = bal.call(w.req());
                    drop(f);
                    ready = false;
                    calls += 1;
                    chk!(c, w.ncalls() == before + 1, "not dispatched once");
                }
                2 => {
                    let (rd, er) = {
                        let i = w.lock();
                        (i.insts[k].ready, i.insts[k].errored)
                    };
                    if er {
                        continue;
                    }
                    if rd {
                        w.revoke(k, *r.pick(&[Gate::Closed, Gate::Closed, Gate::Closed, Gate::Err]));
                        lost += 1;
                        ready = false; // the caller asks again before calling
                    } else {
                        let g = *r.pick(&[Gate::Open, Gate::Open, Gate::Closed]);
                        w.gate(k, g);
                        if waiting && g == Gate::Open {
                            chk!(c, tk.woken(), "s{} became ready and the waiting task was not woken", k);
                        }
                    }
                }
                _ => {}
            }
        }
        c.count("readiness lost", lost);
        c.count("calls", calls);
        if lost > 0 && calls > 1 {
            c.nontrivial();
        }
        drop((bal, h));
        w.check_no_leak("balance");
    });
}

fn traffic(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let mut plan = Plan::random(&r);
        plan.ready_err_pct = *r.pick(&[0, 0, 2, 10]);
        let w = World::new(c, plan);
        let (disc, h) = Disc::new(c);
        let mut bal: Balance<Disc<u8, Loaded>, Req> = Balance::from_rng(disc, Draw(r.fork()));
        let s = Sched::new(c);
        let served = Arc::new(AtomicU64::new(0));
        let total = r.range(5, 40);
        let (c2, w2, s2, sv) = (c.clone(), w.clone(), s.clone(), served.clone());
        let r2 = r.fork();
        s.spawn("client", async move {
            let c = c2;
            for k in 0..total {
                let x = std::future::poll_fn(|cx| bal.poll_ready(cx)).await;
                chk!(c, x.is_ok(), "the balancer failed");
                let req = w2.req();
                let id = req.id;
                let f = bal.call(req);
                sv.fetch_add(1, SeqCst);
                let c3 = c.clone();
                s2.spawn(format!("response {}", k), async move {
                    if let Ok(x) = f.await {
                        chk!(c3, x.id == id, "wrong response");
                    }
                });
                if r2.pct(30) {
                    sleep_ms(r2.below(15)).await;
                }
            }
        });
        let (w3, c3, r3) = (w.clone(), c.clone(), r.fork());
        let hh = h.clone();
        let mutations = r.below(25);
        s.spawn("discovery", async move {
            let ep = |k: u8| Change::Insert(k, Loaded { p: w3.svc(k as u32), load: Arc::new(AtomicU64::new(k as u64 % 3)) });
            for _ in 0..mutations {
                let k = r3.below(6) as u8;
                if r3.pct(60) {
                    hh.send(DiscEv::Change(ep(k)));
                } else {
                    ev!(c3, "remove {}", k);
                    hh.send(DiscEv::Change(Change::Remove(k)));
                }
                sleep_ms(r3.below(12)).await;
            }
            // enough fresh endpoints that some survive, then nothing more
            let mut k = 100;
            while w3.lock().plan.ready_err_pct > 0 {
                w3.lock().plan.ready_err_pct = 0;
            }
            for _ in 0..2 {
                hh.send(DiscEv::Change(ep(k)));
                k += 1;
            }
            if r3.pct(60) {
                hh.send(DiscEv::End);
            }
        });
        let stuck = s.run(Duration::from_secs(3600)).await;
        let open = w.lock().calls.iter().filter(|x| x.done.is_none() && !x.fut_dropped).count();
        chk!(c, stuck.is_empty(), "requests hang with ready endpoints present: {:?} ({} unanswered by endpoints)", stuck, open);
        c.count("requests", served.load(SeqCst));
        if mutations > 3 && served.load(SeqCst) == total {
            c.nontrivial();
        }
        s.clear();
        drop(h);
        w.check_no_leak("balance");
    });
}

/// Frequencies of the endpoints against the two-choice law.
fn distribution(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let n = if r.pct(20) { r.range(10, 64) } else { r.range(2, 9) } as usize;
        let w = World::new(c, Plan { manual_resp: true, gate: Gate::Open, ..Plan::default() });
        let (disc, h) = Disc::new(c);
        let mut bal: Balance<Disc<usize, Loaded>, Req> = if r.pct(70) { Balance::from_rng(disc, Draw(r.fork())) } else { Balance::new(disc) };
        // 0: all equal, 1: all distinct, 2: one light, 3: one heavy
        let kind = r.below(4);
        let loads: Vec<u64> = (0..n)
            .map(|k| match kind {
                0 => 5,
                1 => k as u64,
                2 => (k > 0) as u64,
                _ => (k == 0) as u64,
            })
            .collect();
        for (k, l) in loads.iter().enumerate() {
            h.send(DiscEv::Change(Change::Insert(k, Loaded { p: w.svc(k as u32), load: Arc::new(AtomicU64::new(*l)) })));
        }
        let total = if n > 9 { 500 * n as u64 } else { 1500 };
        let mut hits = vec![0u64; n];
        let tk = Tk::new();
        for _ in 0..total {
            let mut ok = false;
            for _ in 0..5 {
                if tk.poll(|cx| bal.poll_ready(cx)).is_ready() {
                    ok = true;
                    break;
                }
            }
            if !chk!(c, ok, "not ready with {} ready endpoints", n) {
                return;
            }
            let k = w.ncalls();
            drop(bal.call(w.req()));
            let inst = w.lock().calls[k].inst;
            hits[inst] += 1;
        }
        let pairs = (n * (n - 1) / 2) as f64;
        for k in 0..n {
            let higher = loads.iter().filter(|l| **l > loads[k]).count() as f64;
            let ties = loads.iter().filter(|l| **l == loads[k]).count() as f64 - 1.0;
            // pairs it wins for sure, and its share of the ties (who wins a tie is open, in
            // random order it evens out)
            let p = (higher + ties / 2.0) / pairs;
            let mean = p * total as f64;
            let sd = (total as f64 * p * (1.0 - p)).sqrt();
            chk!(c, (hits[k] as f64 - mean).abs() <= 7.0 * sd + 3.0, "endpoint {} of loads {:?} got {} of {} requests, two random choices would give it {:.0}: {:?}", k, loads, hits[k], total, mean, hits);
        }
        ev!(c, "loads {:?} hits {:?}", loads, hits);
        c.count("draws", total);
        c.nontrivial();
        drop((bal, h));
        w.check_no_leak("balance");
    });
}
