//! P22 utility combinators, P23 composition of layers.
use crate::kit::rng::mix;
use crate::kit::*;
use futures::future::{BoxFuture, FutureExt};
use std::collections::BTreeMap;
use std::fmt;
use std::future::Future;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Mutex;
use std::task::Context;
use tower::layer::{layer_fn, util::Stack};
use tower::util::*;
use tower::{ServiceBuilder, ServiceExt};
use tower_layer::{Identity, Layer};

pub fn p22() -> Prop {
    Prop {
        id: "P22",
        rule: "seeded random chains of up to six combinators over random leaves, built through every constructor, with random readiness, delays, failures, cancelled calls and clones, polled only when woken; the outcome, the marks every function left and the count of its applications are compared with a pure model of the chain; non-trivial: two or more functions were applied to one call, or a readiness failure went through a chain",
        assumptions: &[],
        scenarios: vec![Scenario::new("chains", 4000, chains), Scenario::new("helpers", 3000, helpers), Scenario::new("parts", 300, parts)],
    }
}
pub fn p23() -> Prop {
    Prop {
        id: "P23",
        rule: "seeded random nestings of stacks, builders, tuples, optional, boxed, referenced and function layers around marking layers, built several times and cloned; the order of marks on requests, responses and failures and the count of layer applications are compared with the flattened nesting; non-trivial: three or more marking layers were passed",
        assumptions: &[],
        scenarios: vec![
            Scenario::new("order", 4000, order),
            Scenario::new("builder", 2500, builder),
        ],
    }
}

// ---------------------------------------------------------------- P22

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum What {
    Ready(usize),
    Call(usize),
    Made(usize),
    Maker,
    NoService,
    Foreign,
}
/// The error type of all chains.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Er {
    id: u64,
    what: What,
    mark: u64,
}
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Er {}
impl From<Fail> for Er {
    fn from(f: Fail) -> Er {
        Er {
            id: f.id,
            what: match f.call {
                Some(k) => What::Call(k),
                None if f.inst == usize::MAX => What::Maker,
                None => What::Ready(f.inst),
            },
            mark: 0,
        }
    }
}
fn unbox(e: BoxError) -> Er {
    match e.downcast::<Er>() {
        Ok(e) => *e,
        Err(e) => Er {
            id: 0,
            what: if e.is::<tower::util::error::optional::None>() { What::NoService } else { What::Foreign },
            mark: 0,
        },
    }
}

fn h(mark: u64, k: usize) -> u64 {
    mix(mark.rotate_left(7) ^ (k as u64 + 1)) | 1
}

/// What the user functions of one chain did.
struct Env {
    w: World,
    seed: u64,
    counts: Mutex<BTreeMap<(usize, u64), u32>>,
    live: AtomicI64,
}
struct Guard(Arc<Env>);
impl Drop for Guard {
    fn drop(&mut self) {
        self.0.live.fetch_sub(1, SeqCst);
    }
}
impl Env {
    fn note(&self, k: usize, id: u64) {
        *self.counts.lock().unwrap().entry((k, id)).or_insert(0) += 1;
    }
    fn roll(&self, k: usize, id: u64) -> u64 {
        mix(self.seed ^ mix(k as u64) ^ id.wrapping_mul(0x9e37_79b9))
    }
    fn guard(self: &Arc<Self>) -> Guard {
        self.live.fetch_add(1, SeqCst);
        Guard(self.clone())
    }
    fn made(&self, k: usize, id: u64) -> Er {
        Er { id, what: What::Made(k), mark: h(0, k) }
    }
    fn fresh(&self, k: usize, id: u64) -> Resp {
        let mut r = self.w.resp(id, 0);
        r.mark = h(0, k);
        r
    }
    fn req(&self, k: usize, mut q: Req) -> Req {
        self.note(k, q.id);
        q.mark = h(q.mark, k);
        q
    }
    fn resp(&self, k: usize, mut x: Resp) -> Resp {
        self.note(k, x.id);
        x.mark = h(x.mark, k);
        x
    }
    fn err(&self, k: usize, mut e: Er) -> Er {
        self.note(k, e.id);
        e.mark = h(e.mark, k);
        e
    }
    fn result(&self, k: usize, r: Result<Resp, Er>) -> Result<Resp, Er> {
        let id = match &r {
            Ok(x) => x.id,
            Err(e) => e.id,
        };
        self.note(k, id);
        match (self.roll(k, id) % 4, r) {
            (1, Ok(_)) => Err(self.made(k, id)),
            (2, Err(_)) => Ok(self.fresh(k, id)),
            (_, Ok(mut x)) => {
                x.mark = h(x.mark, k);
                Ok(x)
            }
            (_, Err(mut e)) => {
                e.mark = h(e.mark, k);
                Err(e)
            }
        }
    }
    async fn then(self: Arc<Self>, k: usize, r: Result<Resp, Er>) -> Result<Resp, Er> {
        let _g = self.guard();
        let id = match &r {
            Ok(x) => x.id,
            Err(e) => e.id,
        };
        sleep_ms((self.roll(k, id) >> 20) % 4).await;
        self.result(k, r)
    }
    async fn and_then(self: Arc<Self>, k: usize, x: Resp) -> Result<Resp, Er> {
        let _g = self.guard();
        let id = x.id;
        sleep_ms((self.roll(k, id) >> 20) % 4).await;
        if self.roll(k, id) % 3 == 0 {
            self.note(k, id);
            Err(self.made(k, id))
        } else {
            Ok(self.resp(k, x))
        }
    }
    async fn fut<F: Future<Output = Result<Resp, Er>>>(self: Arc<Self>, k: usize, f: F) -> Result<Resp, Er> {
        let _g = self.guard();
        match f.await {
            Ok(x) => Ok(self.resp(k, x)),
            Err(e) => Err(self.err(k, e)),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    MapReq,
    MapResp,
    MapErr,
    MapResult,
    MapFut,
    AndThen,
    Then,
    Ident,
}

/// The outcome of a call as the model sees it.
type Out = Result<u64, Er>;

fn model(env: &Env, ops: &[Op], id: u64, inner: Out, counts: &mut BTreeMap<(usize, u64), u32>) -> Out {
    let mut o = inner;
    for (k, op) in ops.iter().enumerate() {
        let applied = match (op, &o) {
            (Op::MapReq, _) | (Op::MapResult, _) | (Op::MapFut, _) | (Op::Then, _) => true,
            (Op::MapResp, Ok(_)) | (Op::AndThen, Ok(_)) | (Op::MapErr, Err(_)) => true,
            _ => false,
        };
        if !applied {
            continue;
        }
        *counts.entry((k, id)).or_insert(0) += 1;
        let roll = env.roll(k, id);
        o = match op {
            Op::MapReq | Op::Ident => o,
            Op::MapResp => o.map(|m| h(m, k)),
            Op::MapErr => o.map_err(|mut e| {
                e.mark = h(e.mark, k);
                e
            }),
            Op::MapFut => match o {
                Ok(m) => Ok(h(m, k)),
                Err(mut e) => {
                    e.mark = h(e.mark, k);
                    Err(e)
                }
            },
            Op::AndThen => o.and_then(|m| if roll % 3 == 0 { Err(env.made(k, id)) } else { Ok(h(m, k)) }),
            Op::MapResult | Op::Then => match (roll % 4, o) {
                (1, Ok(_)) => Err(env.made(k, id)),
                (2, Err(_)) => Ok(h(0, k)),
                (_, Ok(m)) => Ok(h(m, k)),
                (_, Err(mut e)) => {
                    e.mark = h(e.mark, k);
                    Err(e)
                }
            },
        };
    }
    o
}
fn model_ready_err(ops: &[Op], mut e: Er) -> Er {
    for (k, op) in ops.iter().enumerate() {
        if *op == Op::MapErr {
            e.mark = h(e.mark, k);
        }
    }
    e
}
fn model_req(ops: &[Op]) -> u64 {
    let mut m = 0;
    for (k, op) in ops.iter().enumerate().rev() {
        if *op == Op::MapReq {
            m = h(m, k);
        }
    }
    m
}

type Cl = BoxCloneService<Req, Resp, Er>;
type Pl = BoxService<Req, Resp, Er>;

enum Any {
    Cl(Cl),
    Pl(Pl),
    Un(UnsyncBoxService<Req, Resp, Er>),
}
impl Service<Req> for Any {
    type Response = Resp;
    type Error = Er;
    type Future = futures::future::LocalBoxFuture<'static, Result<Resp, Er>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        match self {
            Any::Cl(s) => s.poll_ready(cx),
            Any::Pl(s) => s.poll_ready(cx),
            Any::Un(s) => s.poll_ready(cx),
        }
    }
    fn call(&mut self, q: Req) -> Self::Future {
        match self {
            Any::Cl(s) => s.call(q),
            Any::Pl(s) => s.call(q),
            Any::Un(s) => s.call(q),
        }
    }
}

macro_rules! ways {
    ($r:expr, $fin:expr; $($e:expr),+ $(,)?) => {{
        let mut n = 0u64;
        $( let _ = stringify!($e); n += 1; )+
        let pick = $r.below(n);
        let mut at = 0u64;
        #[allow(unused_assignments)]
        'x: {
            $( if at == pick { break 'x ($fin)($e); } at += 1; )+
            unreachable!()
        }
    }};
}

/// Put one combinator around `s`; `$fin` erases the result.
macro_rules! combine {
    ($r:expr, $env:expr, $k:expr, $op:expr, $s:expr, $fin:expr) => {{
        let (r, env, k, s) = ($r.clone(), $env.clone(), $k, $s);
        match $op {
            Op::MapReq => {
                let f = move |q: Req| env.req(k, q);
                ways!(r, $fin;
                    MapRequest::new(s, f), s.map_request(f), MapRequestLayer::new(f).layer(s),
                    MapRequest::<(), _>::layer(f).layer(s), ServiceBuilder::new().map_request(f).service(s),
                    option_layer(Some(MapRequestLayer::new(f))).layer(s),
                    ServiceBuilder::new().option_layer(Some(MapRequestLayer::new(f))).service(s))
            }
            Op::MapResp => {
                let f = move |x: Resp| env.resp(k, x);
                ways!(r, $fin;
                    MapResponse::new(s, f), s.map_response(f), MapResponseLayer::new(f).layer(s),
                    MapResponse::<(), _>::layer(f).layer(s), ServiceBuilder::new().map_response(f).service(s))
            }
            Op::MapErr => {
                let f = move |x: Er| env.err(k, x);
                ways!(r, $fin;
                    MapErr::new(s, f), s.map_err(f), MapErrLayer::new(f).layer(s),
                    MapErr::<(), _>::layer(f).layer(s), ServiceBuilder::new().map_err(f).service(s))
            }
            Op::MapResult => {
                let f = move |x: Result<Resp, Er>| env.result(k, x);
                ways!(r, $fin;
                    MapResult::new(s, f), s.map_result(f), MapResultLayer::new(f).layer(s),
                    MapResult::<(), _>::layer(f).layer(s), ServiceBuilder::new().map_result(f).service(s))
            }
            Op::MapFut => {
                let f = move |x| env.clone().fut(k, x);
                ways!(r, $fin;
                    MapFuture::new(s, f), s.map_future(f), MapFutureLayer::new(f).layer(s),
                    MapFuture::<(), _>::layer(f).layer(s), ServiceBuilder::new().map_future(f).service(s))
            }
            Op::AndThen => {
                let f = move |x: Resp| env.and_then(k, x);
                ways!(r, $fin;
                    AndThen::new(s, f), s.and_then(f), AndThenLayer::new(f).layer(s),
                    AndThen::<(), _>::layer(f).layer(s), ServiceBuilder::new().and_then(f).service(s))
            }
            Op::Then => {
                let f = move |x: Result<Resp, Er>| env.then(k, x);
                ways!(r, $fin;
                    Then::new(s, f), s.then(f), ThenLayer::new(f).layer(s),
                    Then::<(), _>::layer(f).layer(s), ServiceBuilder::new().then(f).service(s))
            }
            Op::Ident => {
                let f = move |q: Req| env.req(k, q);
                ways!(r, $fin;
                    Box::new(s), ServiceBuilder::new().service(s), Identity::new().layer(s),
                    ServiceBuilder::default().service(s),
                    option_layer(None::<MapRequestLayer<fn(Req) -> Req>>).layer(s),
                    ServiceBuilder::new().option_layer(None::<MapRequestLayer<fn(Req) -> Req>>).service(s),
                    Either::<_, MapRequest<Cl, fn(Req) -> Req>>::Left(s),
                    Either::<MapRequest<Cl, fn(Req) -> Req>, _>::Right(s),
                    Either::<Identity, MapRequestLayer<fn(Req) -> Req>>::Left(Identity::new()).layer({ let _ = &f; s }),
                )
            }
        }
    }};
}

fn pick_op(r: &Rng) -> Op {
    *r.pick(&[Op::MapReq, Op::MapResp, Op::MapErr, Op::MapResult, Op::MapFut, Op::AndThen, Op::Then, Op::Ident])
}

struct Chain {
    svc: Any,
    ops: Vec<Op>,
    leaf: &'static str,
    decoys: bool,
}

fn leaf<S>(r: &Rng, s: S) -> Pl
where
    S: Service<Req, Response = Resp, Error = Fail> + Send + 'static,
    S::Future: Send + 'static,
{
    ways!(r, Pl::new;
        s.map_err(Er::from),
        s.map_err(|e: Fail| -> Er { e.into() }),
        s.map_result(|x: Result<Resp, Fail>| -> Result<Resp, Er> { x.map_err(Er::from) }),
        s.map_future(|f| async move { f.await.map_err(Er::from) }),
        s.and_then(|x: Resp| async move { Ok::<_, Er>(x) }),
        s.then(|x: Result<Resp, Fail>| async move { x.map_err(Er::from) }),
    )
}
fn leaf_clone<S>(r: &Rng, s: S) -> Cl
where
    S: Service<Req, Response = Resp, Error = Fail> + Clone + Send + Sync + 'static,
    S::Future: Send + Sync + 'static,
{
    if r.pct(20) {
        return Cl::new(ServiceBuilder::new().map_err(|e: Fail| -> Er { e.into() }).boxed_clone_sync().service(s));
    }
    let s = BoxCloneSyncService::new(s);
    ways!(r, Cl::new;
        s.map_err(Er::from),
        BoxCloneSyncService::new(s.map_err(|e: Fail| -> Er { e.into() })),
        s.map_result(|x: Result<Resp, Fail>| -> Result<Resp, Er> { x.map_err(Er::from) }),
        s.map_future(|f| async move { f.await.map_err(Er::from) }),
        BoxCloneSyncService::layer().layer(s.and_then(|x: Resp| async move { Ok::<_, Er>(x) })),
        s.then(|x: Result<Resp, Fail>| async move { x.map_err(Er::from) }),
    )
}

/// A service that always accepts and hands requests to a probe.
fn fn_leaf(p: Probe) -> impl Service<Req, Response = Resp, Error = Fail, Future = RespFut> + Clone + Send + Sync + 'static {
    let cell = Arc::new(Mutex::new(p));
    service_fn(move |q: Req| cell.lock().unwrap().call(q))
}

fn build(c: &Case, w: &World, env: &Arc<Env>) -> Chain {
    let r = &c.rng;
    let mut ops = vec![];
    let mut decoys = false;
    let depth = r.us(7);
    let mut cur: Any;
    let kind;
    match r.below(10) {
        0..=4 => {
            kind = "probe";
            cur = Any::Cl(leaf_clone(r, w.svc(0)));
        }
        5 => {
            kind = "fn";
            w.lock().contract = false;
            cur = Any::Cl(leaf_clone(r, fn_leaf(w.svc(0))));
        }
        6 => {
            kind = "plain";
            cur = Any::Pl(leaf(r, Box::new(w.svc(0))));
        }
        7 | 8 => {
            kind = "future";
            let p = w.svc(0);
            let ok = !r.pct(15);
            let d = r.range(0, 8);
            let fut: BoxFuture<'static, Result<Probe, Fail>> = Box::pin(async move {
                sleep_ms(d).await;
                if ok {
                    Ok(p)
                } else {
                    Err(Fail { inst: usize::MAX, call: None, id: 0 })
                }
            });
            if r.pct(50) {
                cur = Any::Pl(leaf(r, future_service(fut)));
            } else {
                let s = FutureService::new(fut.shared());
                cur = Any::Cl(BoxCloneService::new(s.map_err(Er::from)));
            }
        }
        _ => {
            kind = "none";
            let s = Optional::new(None::<Probe>);
            cur = Any::Pl(Pl::new(s.map_err(unbox)));
        }
    }
    for k in 0..depth {
        let mut op = pick_op(r);
        cur = match cur {
            Any::Cl(s) => {
                if op == Op::Ident {
                    match r.below(8) {
                        0 => Any::Pl(Pl::new(Optional::new(Some(s)).map_err(unbox))),
                        1 => Any::Pl(s.boxed()),
                        2 => Any::Cl(s.boxed_clone()),
                        3 => Any::Cl(Cl::layer().layer(s)),
                        4 => Any::Cl(ServiceBuilder::new().boxed_clone().service(s)),
                        5 => {
                            decoys = true;
                            let d = Cl::new(w.svc(99).map_err(Er::from));
                            Any::Cl(Cl::new(if r.pct(50) { Either::Left(s) } else { Either::<Cl, Cl>::Right(s) }.map_request({
                                let d = Arc::new(Mutex::new(d));
                                move |q| {
                                    let _ = &d;
                                    q
                                }
                            })))
                        }
                        6 => {
                            op = Op::MapReq;
                            let env = env.clone();
                            let l = BoxCloneServiceLayer::new(MapRequestLayer::new(move |q: Req| env.req(k, q)));
                            Any::Cl(l.clone().layer(s))
                        }
                        _ => Any::Cl(combine!(r, env, k, op, s, Cl::new)),
                    }
                } else {
                    Any::Cl(combine!(r, env, k, op, s, Cl::new))
                }
            }
            Any::Pl(s) => {
                if op == Op::Ident {
                    match r.below(7) {
                        0 => Any::Pl(Pl::new(Optional::new(Some(s)).map_err(unbox))),
                        1 => Any::Pl(s.boxed()),
                        2 => Any::Pl(Pl::layer().layer(s)),
                        3 => {
                            op = Op::MapResp;
                            let env = env.clone();
                            let l = BoxLayer::new(MapResponseLayer::new(move |x: Resp| env.resp(k, x)));
                            Any::Pl(l.clone().layer(s))
                        }
                        4 => Any::Pl(ServiceBuilder::new().boxed().service(s)),
                        _ => Any::Pl(combine!(r, env, k, op, s, Pl::new)),
                    }
                } else {
                    Any::Pl(combine!(r, env, k, op, s, Pl::new))
                }
            }
            x => x,
        };
        ops.push(op);
    }
    if r.pct(15) {
        cur = match cur {
            Any::Cl(s) => Any::Un(UnsyncBoxService::new(s)),
            Any::Pl(s) if r.pct(50) => Any::Un(UnsyncBoxService::new(s)),
            Any::Pl(s) => Any::Un(UnsyncBoxService::layer().layer(s)),
            x => x,
        };
    }
    // two alternatives of the same type: the other one must never be touched
    if r.pct(20) {
        if let Any::Cl(s) = cur {
            decoys = true;
            let d = Cl::new(w.svc(99).map_err(Er::from));
            cur = Any::Cl(Cl::new(if r.pct(50) { Either::Left(s) } else { Either::Right(s) }));
            cur = match cur {
                Any::Cl(s) => {
                    let e: Either<Cl, Cl> = if r.pct(50) { Either::Left(s) } else { Either::Right(s) };
                    drop(d);
                    Any::Cl(Cl::new(e))
                }
                x => x,
            };
        }
    }
    Chain { svc: cur, ops, leaf: kind, decoys }
}

struct Actor {
    c: Case,
    w: World,
    env: Arc<Env>,
    ops: Arc<Vec<Op>>,
    leaf: &'static str,
    svc: Any,
    inst: Option<usize>,
}
impl Actor {
    /// one readiness poll, compared with what the leaf said
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        let n0 = self.w.lock().npolls;
        let r = self.svc.poll_ready(cx);
        let (n1, last) = {
            let i = self.w.lock();
            (i.npolls, i.last_polled)
        };
        let c = self.c.clone();
        if n1 > n0 {
            self.inst = Some(last);
        }
        if self.leaf == "fn" || self.leaf == "none" {
            chk!(c, matches!(r, Poll::Ready(Ok(()))), "{:?} for a service that is always ready", r);
            chk!(c, n1 == n0, "polled a service that has nothing to do with it");
            return r;
        }
        let st = self.inst.map(|k| self.w.lock().insts[k].clone_state());
        match &r {
            Poll::Ready(Ok(())) => {
                chk!(c, matches!(st, Some((true, _))), "ready although the wrapped service is not");
            }
            Poll::Pending => {
                let future_pending = self.leaf == "future" && self.inst.is_none();
                chk!(
                    c,
                    future_pending || (n1 > n0 && matches!(st, Some((false, false)))),
                    "not ready although the wrapped service is {:?}",
                    st
                );
            }
            Poll::Ready(Err(e)) => self.ready_err(e),
        }
        r
    }
    fn ready_err(&self, e: &Er) {
        let want = match (e.what, self.inst) {
            (What::Maker, _) if self.leaf == "future" => Er { id: 0, what: What::Maker, mark: 0 },
            (What::Ready(i), _) if self.w.lock().insts.get(i).map_or(false, |x| x.errored) => {
                Er { id: 0, what: What::Ready(i), mark: 0 }
            }
            _ => {
                self.c.fail(format!("a readiness failure nobody produced: {:?}", e));
                return;
            }
        };
        let want = model_ready_err(&self.ops, want);
        chk!(self.c, *e == want, "readiness failed with {:?}, not {:?}", e, want);
        if self.ops.len() >= 2 {
            self.c.nontrivial();
            self.c.count("readiness failures through chains", 1);
        }
    }
    fn judge(&self, id: u64, out: &Result<Resp, Er>) {
        let c = &self.c;
        let calls: Vec<(usize, bool, u64)> = {
            let i = self.w.lock();
            (0..i.calls.len())
                .filter(|k| i.calls[*k].id == id)
                .map(|k| (k, i.calls[k].done.map_or(false, |d| d.0), i.calls[k].mark))
                .collect()
        };
        if let Err(e) = out {
            if matches!(e.what, What::Ready(_) | What::Maker) {
                self.ready_err(e);
                chk!(c, calls.is_empty(), "called although readiness failed");
                return;
            }
        }
        let rm = model_req(&self.ops);
        let inner: Out = if self.leaf == "none" {
            chk!(c, calls.is_empty(), "an empty optional service called something");
            Err(Er { id: 0, what: What::NoService, mark: 0 })
        } else {
            if !chk!(c, calls.len() == 1, "request {} reached the wrapped service {} times", id, calls.len()) {
                return;
            }
            let (k, ok, mark) = calls[0];
            chk!(c, mark == rm, "the request arrived with mark {:x}, not {:x}", mark, rm);
            if self.leaf != "fn" {
                if let Some(inst) = self.inst {
                    let i = self.w.lock();
                    let bad = i.calls[k].inst != inst;
                    drop(i);
                    chk!(c, !bad, "called another instance than the ready one");
                }
            }
            if ok {
                Ok(rm)
            } else {
                Err(Er { id, what: What::Call(k), mark: 0 })
            }
        };
        // an empty optional service loses the id; its functions count under 0
        let mid = if self.leaf == "none" { 0 } else { id };
        let mut counts = BTreeMap::new();
        let want = model(&self.env, &self.ops, mid, inner, &mut counts);
        let got: Out = match out {
            Ok(x) => {
                chk!(c, x.id == mid, "got the response for {}", x.id);
                Ok(x.mark)
            }
            Err(e) => Err(e.clone()),
        };
        chk!(c, got == want, "request {}: outcome {:x?}, not {:x?}, of {:?}", id, got, want, self.ops);
        if self.leaf != "none" {
            let all = self.env.counts.lock().unwrap();
            let mut napplied = 0;
            for k in 0..self.ops.len() {
                let (a, b) = (all.get(&(k, id)).copied().unwrap_or(0), counts.get(&(k, id)).copied().unwrap_or(0));
                napplied += a;
                chk!(c, a == b, "{:?} (number {}) was applied {} times to request {}, not {}", self.ops[k], k, a, id, b);
            }
            if napplied >= 2 {
                c.nontrivial();
            }
        }
        c.count("calls compared with the model", 1);
    }
}

fn chains(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let mut plan = Plan::random(&r);
        plan.ready_err_pct = *r.pick(&[0, 0, 10, 30]);
        let w = World::new(c, plan);
        let env = Arc::new(Env {
            w: w.clone(),
            seed: r.u64(),
            counts: Mutex::new(BTreeMap::new()),
            live: AtomicI64::new(0),
        });
        let ch = build(c, &w, &env);
        ev!(c, "chain {} {:?} decoys {}", ch.leaf, ch.ops, ch.decoys);
        let ops = Arc::new(ch.ops);
        let mut svcs = vec![];
        match ch.svc {
            Any::Cl(s) => {
                for _ in 0..r.us(3) {
                    svcs.push(Any::Cl(s.clone()));
                }
                svcs.push(Any::Cl(s));
            }
            x => svcs.push(x),
        }
        let sched = Sched::new(c);
        for (t, svc) in svcs.into_iter().enumerate() {
            let mut a = Actor {
                c: c.clone(),
                w: w.clone(),
                env: env.clone(),
                ops: ops.clone(),
                leaf: ch.leaf,
                svc,
                inst: None,
            };
            let r = r.fork();
            let n = 1 + r.us(5);
            sched.spawn(format!("caller {}", t), async move {
                let mut dead = false;
                for _ in 0..n {
                    if dead || a.c.violated() {
                        return;
                    }
                    let q = a.w.req();
                    let id = q.id;
                    let limit = if r.pct(20) { Some(r.range(0, 12)) } else { None };
                    let mode = r.below(5);
                    let patience = async {
                        match limit {
                            Some(d) => sleep_ms(d).await,
                            None => std::future::pending().await,
                        }
                    };
                    let out = {
                        let a = &mut a;
                        let r = &r;
                        let work = async move {
                            match mode {
                                0 | 1 => {
                                    std::future::poll_fn(|cx| a.poll_ready(cx)).await?;
                                    // readiness holds until the call
                                    if r.pct(30) {
                                        sleep_ms(r.range(0, 3)).await;
                                        let again = std::future::poll_fn(|cx| Poll::Ready(a.poll_ready(cx))).await;
                                        chk!(a.c, matches!(again, Poll::Ready(Ok(()))), "readiness lost: {:?}", again);
                                    }
                                    a.svc.call(q).await
                                }
                                2 => {
                                    a.inst = None;
                                    let s = a.svc.ready().await?;
                                    s.call(q).await
                                }
                                3 => {
                                    a.inst = None;
                                    let s = (&mut a.svc).ready_oneshot().await?;
                                    s.call(q).await
                                }
                                _ => {
                                    a.inst = None;
                                    if let (Any::Cl(s), true) = (&a.svc, r.pct(50)) {
                                        s.clone().oneshot(q).await
                                    } else {
                                        (&mut a.svc).oneshot(q).await
                                    }
                                }
                            }
                        };
                        futures::pin_mut!(work);
                        futures::pin_mut!(patience);
                        futures::future::select(work, patience).await.map_left()
                    };
                    match out {
                        Some(out) => {
                            ev!(a.c, "caller {} request {} -> {:?}", t, id, out);
                            a.judge(id, &out);
                            if let Err(e) = &out {
                                dead = matches!(e.what, What::Ready(_) | What::Maker);
                            }
                        }
                        None => {
                            ev!(a.c, "caller {} gives up on {}", t, id);
                            a.c.count("calls given up", 1);
                            // the readiness of the instance may be left over: keep using it
                            let n = a.w.lock().calls.iter().filter(|x| x.id == id).count();
                            chk!(a.c, n <= 1, "request {} was dispatched {} times", id, n);
                        }
                    }
                    if r.pct(30) {
                        sleep_ms(r.range(0, 5)).await;
                    }
                }
            });
        }
        let stuck = sched.run(Duration::from_secs(600)).await;
        chk!(c, stuck.is_empty(), "stuck: {:?}", stuck);
        sched.clear();
        chk!(c, env.live.load(SeqCst) == 0, "{} futures of user functions are still alive", env.live.load(SeqCst));
        let bad: Vec<usize> = {
            let i = w.lock();
            (0..i.insts.len()).filter(|k| i.insts[*k].group == 99 && (i.insts[*k].polls > 0 || i.insts[*k].calls > 0)).collect()
        };
        chk!(c, bad.is_empty(), "the other alternative was used");
        let many: Vec<((usize, u64), u32)> =
            env.counts.lock().unwrap().iter().filter(|((k, id), n)| *id != 0 && **n > 1 && ops[*k] != Op::MapErr).map(|(a, b)| (*a, *b)).collect();
        chk!(c, many.is_empty(), "functions applied more than once: {:?}", many);
        w.check_no_leak("chain");
    });
}

trait MapLeft {
    type T;
    fn map_left(self) -> Option<Self::T>;
}
impl<A, X, B, Y> MapLeft for futures::future::Either<(A, X), (B, Y)> {
    type T = A;
    fn map_left(self) -> Option<A> {
        match self {
            futures::future::Either::Left((a, _)) => Some(a),
            _ => None,
        }
    }
}

/// The readiness and one-shot helpers, by hand: every step of them is compared with the service.
fn helpers(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(*r.pick(&[Gate::Closed, Gate::Closed, Gate::Open])));
        let mut p = w.svc(0);
        let inst = p.id;
        enum Step {
            Poll,
            Spurious,
            Open,
            Close,
            Break,
            Finish(bool),
            Drop,
        }
        let script = |r: &Rng| match r.below(12) {
            0..=3 => Step::Poll,
            4 => Step::Spurious,
            5 | 6 => Step::Open,
            7 => Step::Close,
            8 => {
                if r.pct(40) {
                    Step::Break
                } else {
                    Step::Poll
                }
            }
            9 | 10 => Step::Finish(r.pct(60)),
            _ => {
                if r.pct(20) {
                    Step::Drop
                } else {
                    Step::Poll
                }
            }
        };
        enum H {
            Ready,
            ReadyOneshot,
            Oneshot,
        }
        for _ in 0..1 + r.us(4) {
            if c.violated() || w.lock().insts[inst].errored {
                break;
            }
            let kind = match r.below(3) {
                0 => H::Ready,
                1 => H::ReadyOneshot,
                _ => H::Oneshot,
            };
            let q = w.req();
            let id = q.id;
            let before = w.ncalls();
            let mut q = Some(q);
            // every helper as a future of (readiness outcome, call outcome)
            let want_call = matches!(kind, H::Oneshot);
            let fut: std::pin::Pin<Box<dyn Future<Output = Result<Option<Resp>, Fail>> + '_>> = match kind {
                H::Ready => {
                    let f = if r.pct(50) { p.ready() } else { Ready::new(&mut p) };
                    Box::pin(async move { f.await.map(|_: &mut Probe| None) })
                }
                H::ReadyOneshot => {
                    let f = if r.pct(50) { (&mut p).ready_oneshot() } else { ReadyOneshot::new(&mut p) };
                    Box::pin(async move { f.await.map(|_: &mut Probe| None) })
                }
                H::Oneshot => {
                    let q = q.take().unwrap();
                    let f = if r.pct(50) { (&mut p).oneshot(q) } else { Oneshot::new(&mut p, q) };
                    Box::pin(async move { f.await.map(Some) })
                }
            };
            let mut f = Fut::new(fut);
            let mut over = false;
            for step in 0..60 {
                if c.violated() {
                    break;
                }
                let s = if step > 40 {
                    match step % 3 {
                        0 => Step::Open,
                        1 => Step::Finish(true),
                        _ => Step::Poll,
                    }
                } else {
                    script(&r)
                };
                match s {
                    Step::Open => w.gate(inst, Gate::Open),
                    Step::Close => {
                        let g = w.lock().insts[inst].gate;
                        if g != Gate::Err {
                            w.gate(inst, Gate::Closed)
                        }
                    }
                    Step::Break => {
                        if !w.lock().insts[inst].ready {
                            w.gate(inst, Gate::Err)
                        }
                    }
                    Step::Finish(ok) => {
                        for k in w.unset_calls() {
                            w.finish(k, ok);
                        }
                    }
                    Step::Drop => {
                        ev!(c, "helper dropped");
                        break;
                    }
                    Step::Poll | Step::Spurious => {
                        if matches!(s, Step::Poll) && f.polled && !f.tk.woken() {
                            continue;
                        }
                        let got = f.poll();
                        let (rdy, err, gate) = {
                            let i = w.lock();
                            let x = &i.insts[inst];
                            (x.ready, x.errored, x.gate)
                        };
                        let n = w.ncalls() - before;
                        chk!(c, n <= want_call as usize, "{} calls made", n);
                        match got {
                            Poll::Ready(Ok(None)) => {
                                chk!(c, rdy, "a readiness helper finished before the service was ready");
                                over = true;
                                break;
                            }
                            Poll::Ready(Ok(Some(x))) => {
                                chk!(c, n == 1 && x.id == id, "got {:?} after {} calls", x, n);
                                over = true;
                                c.nontrivial();
                                break;
                            }
                            Poll::Ready(Err(e)) => {
                                match e.call {
                                    None => {
                                        chk!(c, err && e.inst == inst, "a readiness failure out of nowhere: {:?}", e);
                                        chk!(c, n == 0, "called although readiness failed");
                                    }
                                    Some(k) => {
                                        let d = w.lock().calls[k].done;
                                        chk!(c, e.id == id && d.map(|d| d.0) == Some(false), "a failure out of nowhere: {:?}", e);
                                    }
                                }
                                over = true;
                                break;
                            }
                            Poll::Pending => {
                                if n == 0 {
                                    chk!(c, !rdy && !err && gate == Gate::Closed, "still waiting although the service is {:?} (ready {})", gate, rdy);
                                    c.count("waits for readiness", 1);
                                } else {
                                    let i = w.lock();
                                    let set = i.calls[before].set;
                                    drop(i);
                                    chk!(c, set.is_none(), "the response is there and the helper waits");
                                }
                            }
                        }
                    }
                }
                // something to do and polled before: the task must have been woken
                if f.polled && !f.done && !f.tk.woken() {
                    let i = w.lock();
                    let x = &i.insts[inst];
                    let n = i.calls.len() - before;
                    let todo = if n == 0 { x.gate != Gate::Closed } else { i.calls[before].set.is_some() };
                    drop(i);
                    chk!(c, !todo, "the task was not woken");
                }
            }
            if over {
                c.nontrivial();
            }
            drop(f);
            drop(q);
            for k in w.unset_calls() {
                w.finish(k, true);
            }
            // use up readiness left behind
            if w.lock().insts[inst].ready && r.pct(60) {
                let q = w.req();
                drop(p.call(q));
            }
        }
        drop(p);
        w.check_no_leak("helpers");
    });
}

// ---------------------------------------------------------------- P23

type Sv = BoxCloneSyncService<Req, Resp, Er>;

/// A marking layer: it appends its number to requests going in, responses and errors coming out.
#[derive(Clone)]
struct Mark {
    k: usize,
    applied: Arc<Mutex<Vec<usize>>>,
}
#[derive(Clone)]
struct MarkSvc<S> {
    k: usize,
    inner: S,
}
impl<S> Layer<S> for Mark {
    type Service = MarkSvc<S>;
    fn layer(&self, inner: S) -> MarkSvc<S> {
        self.applied.lock().unwrap().push(self.k);
        MarkSvc { k: self.k, inner }
    }
}
impl<S> Service<Req> for MarkSvc<S>
where
    S: Service<Req, Response = Resp, Error = Er>,
    S::Future: Send + 'static,
{
    type Response = Resp;
    type Error = Er;
    type Future = BoxFuture<'static, Result<Resp, Er>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        let k = self.k;
        self.inner.poll_ready(cx).map_err(|mut e| {
            e.mark = h(e.mark, k);
            e
        })
    }
    fn call(&mut self, mut q: Req) -> Self::Future {
        q.mark = h(q.mark, self.k);
        let k = self.k;
        let f = self.inner.call(q);
        Box::pin(async move {
            match f.await {
                Ok(mut x) => {
                    x.mark = h(x.mark, k);
                    Ok(x)
                }
                Err(mut e) => {
                    e.mark = h(e.mark, k);
                    Err(e)
                }
            }
        })
    }
}

/// An erased layer that is not one of tower's.
#[derive(Clone)]
struct Dl(Arc<dyn Fn(Sv) -> Sv + Send + Sync>);
impl Layer<Sv> for Dl {
    type Service = Sv;
    fn layer(&self, s: Sv) -> Sv {
        (self.0)(s)
    }
}
impl Dl {
    fn of<L>(l: L) -> Dl
    where
        L: Layer<Sv> + Send + Sync + 'static,
        L::Service: Service<Req, Response = Resp, Error = Er> + Clone + Send + Sync + 'static,
        <L::Service as Service<Req>>::Future: Send + 'static,
    {
        Dl(Arc::new(move |s| Sv::new(l.layer(s))))
    }
}

struct Gen {
    r: Rng,
    next: usize,
    applied: Arc<Mutex<Vec<usize>>>,
    what: String,
}
impl Gen {
    fn mark(&mut self) -> (Mark, Vec<usize>) {
        let k = self.next;
        self.next += 1;
        (Mark { k, applied: self.applied.clone() }, vec![k])
    }
    fn list(&mut self, n: usize, depth: usize) -> (Vec<Dl>, Vec<usize>) {
        let mut ls = vec![];
        let mut ks = vec![];
        for _ in 0..n {
            let (l, k) = self.layer(depth);
            ls.push(l);
            ks.extend(k);
        }
        (ls, ks)
    }
    /// A random layer and the marks it leaves on a request, in order.
    fn layer(&mut self, depth: usize) -> (Dl, Vec<usize>) {
        let r = self.r.clone();
        if depth == 0 || self.next > 40 {
            let (m, ks) = self.mark();
            return match r.below(4) {
                0 => (Dl::of(m), ks),
                1 => (Dl::of(layer_fn(move |s: Sv| m.layer(s))), ks),
                2 => (Dl(Arc::new(move |s| Sv::new((&&m).layer(s)))), ks),
                _ => (Dl::of(tower_layer::layer_fn(move |s: Sv| Sv::new(m.layer(s)))), ks),
            };
        }
        let d = depth - 1;
        let kind = r.below(16);
        self.what.push_str(&format!("{}:", kind));
        match kind {
            0 => {
                // an inner and an outer layer: the outer comes first
                let (inner, ki) = self.layer(d);
                let (outer, mut ks) = self.layer(d);
                ks.extend(ki);
                (Dl::of(Stack::new(inner, outer)), ks)
            }
            1 | 2 => {
                let n = r.us(7);
                let (l, ks) = self.list(n, d);
                (builder_of(l), ks)
            }
            3 | 4 => {
                let n = r.us(17);
                let (l, ks) = self.list(n, if n > 4 { 0 } else { d });
                (tuple_of(l), ks)
            }
            5 => {
                let (l, ks) = self.layer(d);
                if r.pct(60) {
                    (Dl::of(option_layer(Some(l))), ks)
                } else {
                    (Dl::of(option_layer(None::<Dl>)), vec![])
                }
            }
            6 => {
                let (l, ks) = self.layer(d);
                let b = ServiceBuilder::new();
                if r.pct(60) {
                    (Dl::of(b.option_layer(Some(l))), ks)
                } else {
                    (Dl::of(b.option_layer(None::<Dl>)), vec![])
                }
            }
            7 => (Dl::of(if r.pct(50) { Identity::new() } else { Identity::default() }), vec![]),
            8 => {
                let (l, ks) = self.layer(d);
                (Dl::of(BoxCloneSyncServiceLayer::new(l).clone()), ks)
            }
            9 => {
                // cloneable boxes that are not Sync, and boxes that are not cloneable, at the
                // outermost place of a service that is rebuilt from a shared handle
                let (l, ks) = self.layer(d);
                (Dl::of(layer_fn(move |s: Sv| l.layer(s))), ks)
            }
            10 => {
                let (a, ka) = self.layer(d);
                let (b, kb) = self.layer(d);
                if r.pct(50) {
                    (Dl::of(Either::<Dl, Dl>::Left(a)), ka)
                } else {
                    (Dl::of(Either::<Dl, Dl>::Right(b)), kb)
                }
            }
            11 => {
                let (l, ks) = self.layer(d);
                (Dl(Arc::new(move |s| (&l).layer(s))), ks)
            }
            12 => {
                let (l, ks) = self.layer(d);
                (Dl::of(ServiceBuilder::new().layer_fn(move |s: Sv| l.layer(s))), ks)
            }
            13 => {
                let (l, ks) = self.layer(d);
                let b = ServiceBuilder::new().layer(l).clone();
                (Dl::of(b.check_clone().into_inner()), ks)
            }
            14 => {
                // checks at compile time change nothing
                let (l, ks) = self.layer(d);
                let b = ServiceBuilder::new().layer(l).check_service::<Sv, Req, Resp, Er>().check_service_clone::<Sv>();
                (Dl(Arc::new(move |s| b.service(s))), ks)
            }
            _ => {
                let (l, ks) = self.layer(d);
                let (l2, k2) = self.layer(d);
                let mut ks = ks;
                ks.extend(k2);
                // each of two builders in a builder keeps its place
                (Dl::of(ServiceBuilder::new().layer(ServiceBuilder::new().layer(l)).layer(ServiceBuilder::new().layer(l2))), ks)
            }
        }
    }
}


macro_rules! from_slice {
    ($l:expr; $($n:tt => [$($x:ident)*]),* ; $f:ident) => {
        match &$l[..] {
            $( [$($x),*] => $f!($($x)*), )*
            _ => unreachable!(),
        }
    };
}
macro_rules! as_builder {
    ($($x:ident)*) => { Dl::of(ServiceBuilder::new()$(.layer($x.clone()))*) };
}
macro_rules! as_tuple {
    ($($x:ident)*) => { Dl::of(($($x.clone(),)*)) };
}
macro_rules! sized {
    ($l:expr, $f:ident) => {
        from_slice!($l;
            0 => [], 1 => [a], 2 => [a b], 3 => [a b c], 4 => [a b c d], 5 => [a b c d e], 6 => [a b c d e f],
            7 => [a b c d e f g], 8 => [a b c d e f g h], 9 => [a b c d e f g h i], 10 => [a b c d e f g h i j],
            11 => [a b c d e f g h i j k], 12 => [a b c d e f g h i j k l], 13 => [a b c d e f g h i j k l m],
            14 => [a b c d e f g h i j k l m n], 15 => [a b c d e f g h i j k l m n o],
            16 => [a b c d e f g h i j k l m n o p]; $f)
    };
}
fn builder_of(l: Vec<Dl>) -> Dl {
    sized!(l, as_builder)
}
fn tuple_of(l: Vec<Dl>) -> Dl {
    sized!(l, as_tuple)
}

fn order(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let mut plan = Plan::random(&r);
        plan.ready_err_pct = *r.pick(&[0, 0, 20]);
        let w = World::new(c, plan);
        let applied: Arc<Mutex<Vec<usize>>> = Default::default();
        let mut g = Gen { r: r.clone(), next: 0, applied: applied.clone(), what: String::new() };
        let (l, ks) = g.layer(1 + r.us(3));
        chk!(c, applied.lock().unwrap().is_empty(), "a layer was applied before anything was built");
        ev!(c, "nesting {} marks {:?}", g.what, ks);
        if ks.len() >= 3 {
            c.nontrivial();
        }
        let mut svcs: Vec<(Any, u32)> = vec![];
        for b in 0..1 + r.us(3) as u32 {
            let base = Sv::new(w.svc(b).map_err(Er::from));
            let s = match r.below(6) {
                0 => Any::Pl(BoxLayer::new(l.clone()).clone().layer(base)),
                1 => Any::Cl(BoxCloneServiceLayer::new(l.clone()).clone().layer(base)),
                2 => Any::Pl(ServiceBuilder::new().boxed().layer(l.clone()).service(base)),
                3 => Any::Cl(ServiceBuilder::new().boxed_clone().layer(l.clone()).service(base)),
                4 => Any::Cl(Cl::new(BoxCloneSyncServiceLayer::new(l.clone()).layer(base))),
                _ => Any::Cl(Cl::new(l.layer(base))),
            };
            let mut got = std::mem::take(&mut *applied.lock().unwrap());
            got.sort();
            let mut want = ks.clone();
            want.sort();
            chk!(c, got == want, "layers applied {:?}, given {:?}", got, want);
            c.count("services built", 1);
            if let Any::Cl(s) = &s {
                svcs.push((Any::Cl(s.clone()), b));
            }
            svcs.push((s, b));
        }
        let sched = Sched::new(c);
        for (t, (mut s, group)) in svcs.into_iter().enumerate() {
            let (c, w, ks, r) = (c.clone(), w.clone(), ks.clone(), r.fork());
            let n = r.us(4);
            sched.spawn(format!("caller {}", t), async move {
                for _ in 0..n {
                    let q = w.req();
                    let id = q.id;
                    let back = |m: u64| ks.iter().rev().fold(m, |m, k| h(m, *k));
                    let there = ks.iter().fold(0, |m, k| h(m, *k));
                    let out = async {
                        s.ready().await?;
                        s.call(q).await
                    }
                    .await;
                    ev!(c, "caller {} -> {:?}", t, out);
                    let call = w.lock().calls.iter().filter(|x| x.id == id).map(|x| (x.group, x.mark)).collect::<Vec<_>>();
                    match &out {
                        Err(e) if matches!(e.what, What::Ready(_)) => {
                            chk!(c, call.is_empty(), "called although readiness failed");
                            chk!(c, e.mark == back(0), "the readiness failure passed the layers in another order");
                            return;
                        }
                        _ => {}
                    }
                    if !chk!(c, call.len() == 1 && call[0].0 == group, "request {} went to {:?}, not to group {}", id, call, group) {
                        return;
                    }
                    chk!(c, call[0].1 == there, "the request passed the layers in another order than {:?}", ks);
                    match &out {
                        Ok(x) => chk!(c, x.mark == back(there), "the response passed the layers in another order"),
                        Err(e) => chk!(c, e.mark == back(0), "the failure passed the layers in another order"),
                    };
                    c.count("requests followed", 1);
                }
            });
        }
        let stuck = sched.run(Duration::from_secs(600)).await;
        chk!(c, stuck.is_empty(), "stuck: {:?}", stuck);
        chk!(c, applied.lock().unwrap().is_empty(), "a layer was applied again after building");
        sched.clear();
        drop((l, g));
        w.check_no_leak("layers");
    });
}

#[derive(Clone)]
struct Again(u32);
impl tower::retry::Policy<Req, Resp, Fail> for Again {
    type Future = std::future::Ready<()>;
    fn retry(&mut self, _: &mut Req, _: &mut Result<Resp, Fail>) -> Option<Self::Future> {
        if self.0 == 0 {
            return None;
        }
        self.0 -= 1;
        Some(std::future::ready(()))
    }
    fn clone_request(&mut self, q: &Req) -> Option<Req> {
        Some(q.clone())
    }
}

type Bx = BoxCloneService<Req, Resp, BoxError>;
type Un = UnsyncBoxService<Req, Resp, BoxError>;

/// Every builder method and every middleware layer, with random parameters: what was asked for is
/// what the service does, for each service built.
fn builder(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let kind = r.below(10);
        let n = r.range(1, 6) as usize;
        let per = Duration::from_millis(r.range(2, 60));
        ev!(c, "method {} n {} per {:?}", kind, n, per);
        let tk = Tk::new();
        c.nontrivial();
        match kind {
            // concurrency: how many calls can be open at once, per service built
            0 | 1 => {
                let w = World::new(c, Plan::manual(Gate::Open));
                let global = kind == 1;
                use tower::limit::{ConcurrencyLimitLayer, GlobalConcurrencyLimitLayer};
                let sem = Arc::new(tokio::sync::Semaphore::new(n));
                let way = r.below(3);
                let mk: Box<dyn Fn(Probe) -> Bx> = if global {
                    let l = if r.pct(50) { GlobalConcurrencyLimitLayer::new(n) } else { GlobalConcurrencyLimitLayer::with_semaphore(sem) };
                    let l2 = l.clone();
                    Box::new(move |p| Bx::new(ServiceBuilder::new().layer(if way == 0 { l.clone() } else { l2.clone() }).service(p).map_err(|e: Fail| e.into())))
                } else if way == 0 {
                    let l = ConcurrencyLimitLayer::new(n);
                    Box::new(move |p| Bx::new(l.clone().layer(p).map_err(|e: Fail| e.into())))
                } else {
                    let b = ServiceBuilder::new().concurrency_limit(n);
                    Box::new(move |p| Bx::new(b.service(p).map_err(|e: Fail| e.into())))
                };
                let mut a = mk(w.svc(0));
                let mut b = mk(w.svc(1));
                let mut open = vec![];
                let take = |s: &mut Bx, open: &mut Vec<_>| {
                    let mut k = 0;
                    while k < 20 && matches!(tk.poll(|cx| s.poll_ready(cx)), Poll::Ready(Ok(()))) {
                        open.push(s.call(w.req()));
                        k += 1;
                    }
                    k
                };
                let ka = take(&mut a, &mut open);
                chk!(c, ka == n, "limit {} allows {} at once", n, ka);
                let mut a2 = a.clone();
                let k2 = take(&mut a2, &mut open);
                chk!(c, k2 == 0, "a clone allows {} more", k2);
                let kb = take(&mut b, &mut open);
                chk!(c, kb == if global { 0 } else { n }, "a second service built allows {} (limit {}, shared: {})", kb, n, global);
                open.clear();
                drop((a, a2, b, mk, open));
                w.check_no_leak("builder");
            }
            // buffer: how many may be accepted while the worker cannot run
            2 | 3 => {
                let w = World::new(c, Plan::manual(Gate::Open));
                let mk: Box<dyn Fn(Probe) -> tower::buffer::Buffer<Req, RespFut>> = if kind == 2 {
                    let b = ServiceBuilder::new().buffer(n);
                    Box::new(move |p| b.service(p))
                } else {
                    let l = tower::buffer::BufferLayer::new(n);
                    let l = if r.pct(50) { l.clone() } else { l };
                    Box::new(move |p| l.layer(p))
                };
                for g in 0..2 {
                    let s = mk(w.svc(g));
                    let mut held = vec![];
                    for _ in 0..20 {
                        let mut x = s.clone();
                        if matches!(tk.poll(|cx| x.poll_ready(cx)), Poll::Ready(Ok(()))) {
                            held.push(x);
                        } else {
                            break;
                        }
                    }
                    chk!(c, held.len() == n, "a buffer of {} reserves {}", n, held.len());
                    // all are dispatched to this buffer's own service
                    let futs: Vec<_> = held.iter_mut().map(|x| x.call(w.req())).collect();
                    settle().await;
                    let got = w.lock().calls.iter().filter(|x| x.group == g).count();
                    chk!(c, got == n, "{} of {} requests arrived at service {}", got, n, g);
                    drop(futs);
                }
                drop(mk);
                settle().await;
                w.check_no_leak("builder");
            }
            4 => {
                let w = World::new(c, Plan::manual(Gate::Open));
                let mk: Box<dyn Fn(Probe) -> Un> = if r.pct(50) {
                    let b = ServiceBuilder::new().rate_limit(n as u64, per);
                    Box::new(move |p| Un::new(b.service(p).map_err(|e: Fail| e.into())))
                } else {
                    let l = tower::limit::RateLimitLayer::new(n as u64, per);
                    Box::new(move |p| Un::new(l.clone().layer(p).map_err(|e: Fail| e.into())))
                };
                for g in 0..2 {
                    let mut s = mk(w.svc(g));
                    let mut k = 0;
                    let t0 = tokio::time::Instant::now();
                    while k < 20 && matches!(tk.poll(|cx| s.poll_ready(cx)), Poll::Ready(Ok(()))) {
                        drop(s.call(w.req()));
                        k += 1;
                    }
                    chk!(c, k == n, "a rate of {} admits {}", n, k);
                    let ok = s.ready().await.is_ok();
                    chk!(c, ok && t0.elapsed() >= per && t0.elapsed() <= per + Duration::from_millis(2), "reopened after {:?} with a period of {:?}", t0.elapsed(), per);
                }
                drop(mk);
                w.check_no_leak("builder");
            }
            5 => {
                let w = World::new(c, Plan::manual(Gate::Open));
                let mut s = if r.pct(50) {
                    Un::new(ServiceBuilder::new().timeout(per).service(w.svc(0)))
                } else {
                    Un::new(tower::timeout::TimeoutLayer::new(per).layer(w.svc(0)))
                };
                let t0 = tokio::time::Instant::now();
                let _ = s.ready().await;
                let out = s.call(w.req()).await;
                let late = t0.elapsed();
                let ok = out.as_ref().err().map_or(false, |e| e.is::<tower::timeout::error::Elapsed>());
                chk!(c, ok && late >= per && late <= per + Duration::from_millis(2), "a timeout of {:?} ended with {:?} after {:?}", per, out, late);
                drop((s, out));
                w.check_no_leak("builder");
            }
            6 => {
                let w = World::new(c, Plan::manual(Gate::Closed));
                let mut s = if r.pct(50) {
                    Un::new(ServiceBuilder::new().load_shed().service(w.svc(0)))
                } else {
                    Un::new(tower::load_shed::LoadShedLayer::new().layer(w.svc(0)))
                };
                let rd = matches!(tk.poll(|cx| s.poll_ready(cx)), Poll::Ready(Ok(())));
                chk!(c, rd, "load shedding waits");
                let out = s.call(w.req()).await;
                let ok = out.as_ref().err().map_or(false, |e| e.is::<tower::load_shed::error::Overloaded>());
                chk!(c, ok, "{:?} instead of overloaded", out);
                drop((s, out));
                w.check_no_leak("builder");
            }
            7 => {
                let w = World::new(c, Plan { ready: [1, 0, 0], ..Plan::random(&r) });
                let mut s = if r.pct(50) {
                    Un::new(ServiceBuilder::new().retry(Again(n as u32)).service(w.svc(0)).map_err(|e: Fail| e.into()))
                } else {
                    Un::new(tower::retry::RetryLayer::new(Again(n as u32)).layer(w.svc(0)).map_err(|e: Fail| e.into()))
                };
                for _ in 0..2 {
                    let before = w.ncalls();
                    let _ = s.ready().await;
                    let _ = s.call(w.req()).await;
                    let k = w.ncalls() - before;
                    chk!(c, k == n + 1, "{} attempts instead of {}", k, n + 1);
                }
                drop(s);
                w.check_no_leak("builder");
            }
            8 | 9 => {
                let w = World::new(c, Plan::default());
                let f = |q: Req| -> Result<Req, BoxError> {
                    if q.id % 2 == 0 {
                        Ok(q)
                    } else {
                        Err("no".into())
                    }
                };
                let af = move |q: Req| std::future::ready(f(q));
                let mut s = match r.below(4) {
                    0 => Un::new(ServiceBuilder::new().filter(f).service(w.svc(0))),
                    1 => Un::new(tower::filter::FilterLayer::new(f).layer(w.svc(0))),
                    2 => Un::new(ServiceBuilder::new().filter_async(af).service(w.svc(0))),
                    _ => Un::new(tower::filter::AsyncFilterLayer::new(af).layer(w.svc(0))),
                };
                for _ in 0..4 {
                    let q = w.req();
                    let id = q.id;
                    let _ = s.ready().await;
                    let ok = s.call(q).await.is_ok();
                    let seen = w.lock().calls.iter().any(|x| x.id == id);
                    chk!(c, ok == (id % 2 == 0) && seen == ok, "request {}: ok {} dispatched {}", id, ok, seen);
                }
                drop(s);
                w.check_no_leak("builder");
            }
            _ => unreachable!(),
        }
    });
}

/// What a middleware wraps can be looked at and taken out again, and is the very same service.
fn parts(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let d = Duration::from_millis(r.range(1, 50));
        let tk = Tk::new();
        let used = r.pct(50);
        macro_rules! part {
            ($name:expr, $p:ident => $mk:expr) => {{
                let $p = w.svc(0);
                let id = $p.id;
                let mut s = $mk;
                if used {
                    let _ = tk.poll(|cx| Service::<Req>::poll_ready(&mut s, cx));
                }
                chk!(c, s.get_ref().id == id && s.get_mut().id == id, "{}: another service inside", $name);
                let p = s.into_inner();
                let (n, gone) = { let i = w.lock(); (i.insts.len(), i.insts[id].dropped) };
                chk!(c, p.id == id && !gone, "{}: another service handed back", $name);
                chk!(c, n == id + 1, "{}: the wrapped service was cloned", $name);
                chk!(c, w.lock().insts[id].ready == used, "{}: its readiness changed", $name);
            }};
        }
        part!("timeout", p => tower::timeout::Timeout::new(p, d));
        part!("concurrency limit", p => tower::limit::ConcurrencyLimit::new(p, 1 + r.us(3)));
        part!("rate limit", p => tower::limit::RateLimit::new(p, tower::limit::rate::Rate::new(1 + r.below(3), d)));
        part!("retry", p => tower::retry::Retry::new(Again(1), p));
        part!("filter", p => tower::filter::Filter::new(p, |q: Req| Ok::<Req, BoxError>(q)));
        part!("async filter", p => tower::filter::AsyncFilter::new(p, |q: Req| async move { Ok::<Req, BoxError>(q) }));
        part!("map future", p => p.map_future(|f: RespFut| f));
        // functions as services through a builder
        let p = w.svc(1);
        let id = p.id;
        let p = Arc::new(Mutex::new(p));
        let mut s = ServiceBuilder::new().map_request(|q: Req| q).service_fn(move |q: Req| {
            let mut p = p.lock().unwrap();
            let _ = Tk::new().poll(|cx| p.poll_ready(cx));
            p.call(q)
        });
        for _ in 0..1 + r.us(3) {
            chk!(c, matches!(tk.poll(|cx| s.poll_ready(cx)), Poll::Ready(Ok(()))), "a function is always ready");
            let (k, q) = (w.ncalls(), w.req());
            let qid = q.id;
            let mut f = Fut::new(s.call(q));
            chk!(c, w.ncalls() == k + 1 && w.lock().calls[k].inst == id && w.lock().calls[k].id == qid, "the function was not called once");
            chk!(c, f.poll().is_pending(), "resolved before the function's future");
            let ok = r.pct(50);
            w.finish(k, ok);
            match f.poll() {
                Poll::Ready(Ok(x)) => { chk!(c, ok && x.call == k, "outcome changed"); }
                Poll::Ready(Err(e)) => { chk!(c, !ok && e.call == Some(k), "outcome changed"); }
                Poll::Pending => c.fail("withheld"),
            }
        }
        drop(s);
        c.nontrivial();
        w.check_no_leak("parts");
    });
}
