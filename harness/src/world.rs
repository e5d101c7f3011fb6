//! The simulated world: event queue, executor, network, storage servers, crashes and history.

use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use crate::audit::Audit;
use crate::peers::new_peer;
use crate::plan::{Act, Fate, Filter, Ns, NsRef, Op, OpKind, Phase, Plan, Stop};
use crate::rng::{hash, hash_bytes, mix, Rng};
use crate::store::Store;
use crate::types::*;

/// What an operation returned.
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Pending,
    Search(BTreeMap<Bytes, BTreeSet<Bytes>>),
    Mod(BTreeSet<Bytes>),
    Compact,
    Err(OpErr),
    Crashed,
    Panicked(String),
}

impl Outcome {
    pub fn is_ok(&self) -> bool {
        matches!(self, Outcome::Search(_) | Outcome::Mod(_) | Outcome::Compact)
    }
    pub fn brief(&self) -> String {
        match self {
            Outcome::Pending => "pending".into(),
            Outcome::Search(m) => {
                format!("ok({} results)", m.values().map(BTreeSet::len).sum::<usize>())
            }
            Outcome::Mod(n) => format!("ok({} new)", n.len()),
            Outcome::Compact => "ok".into(),
            Outcome::Err(e) => format!("err[{}: {}]", e.kind, e.msg.chars().take(160).collect::<String>()),
            Outcome::Crashed => "crashed".into(),
            Outcome::Panicked(m) => format!("panicked[{m}]"),
        }
    }
}

/// One storage request, as observed by the simulator.
#[derive(Clone, Debug)]
pub struct CallRec {
    pub table: Table,
    pub kind: &'static str,
    pub shape: (usize, usize),
    /// Tokens read or written by the request.
    pub tokens: Vec<Tok>,
    pub issue: u64,
    pub act: Act,
    /// Event numbers at which storage executed the request.
    pub applied: Vec<u64>,
    /// Result of the first execution: `Ok(rows)` = tokens of the returned rows.
    pub result: Option<Result<Vec<Tok>, String>>,
    /// The client got an error for this request.
    pub failed: bool,
    /// A corrupted value was delivered to the client.
    pub corrupted: bool,
    pub duprow: bool,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub id: u32,
    pub phase: usize,
    pub client: usize,
    pub kind: OpKind,
    pub ns: Ns,
    pub invoke: u64,
    pub end: u64,
    pub outcome: Outcome,
    pub rounds: Vec<(u64, Assoc)>,
    pub filters: Vec<(u64, BTreeSet<Bytes>, Dump, Dump)>,
    /// Event number at which the interrupt returned `true` or an error.
    pub stop: Option<u64>,
    pub calls: Vec<CallRec>,
}

impl OpRec {
    pub fn done(&self) -> bool {
        self.outcome != Outcome::Pending
    }
}

#[derive(Clone, Debug)]
enum Ev {
    Start(usize),
    Arrive(usize, bool),
    Reply(usize),
    Timeout(usize),
    Wake(usize),
    Restart,
}

struct Pending {
    op: usize,
    n: usize,
    client: usize,
    table: Table,
    req: Option<Req>,
    fate: Fate,
    epoch: u64,
    d2: u64,
    reply: Option<Result<Reply, String>>,
    result: Option<Result<Reply, String>>,
    resolved: bool,
    waker: Option<Waker>,
}

#[derive(Default)]
struct Script {
    ops: Vec<Op>,
    next: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub events: u64,
    pub sim_time: u64,
    pub fired: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub calls: u64,
    pub ops: u64,
    pub ok_ops: u64,
    /// Hash of the order of events.
    pub interleaving: u64,
    pub max_concurrent: u64,
    pub unchecked: u64,
}

impl Stats {
    pub fn hit(&mut self, p: &'static str) {
        *self.probes.entry(p).or_default() += 1;
    }
    pub fn fire(&mut self, p: &'static str) {
        *self.fired.entry(p).or_default() += 1;
    }
    pub fn merge(&mut self, o: &Stats) {
        self.events += o.events;
        self.sim_time += o.sim_time;
        self.calls += o.calls;
        self.ops += o.ops;
        self.ok_ops += o.ok_ops;
        self.unchecked += o.unchecked;
        self.max_concurrent = self.max_concurrent.max(o.max_concurrent);
        for (k, v) in &o.fired {
            *self.fired.entry(k).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k).or_default() += v;
        }
    }
}

pub struct Rot {
    pub table: Table,
    pub token: Tok,
    pub good: Bytes,
    pub bad: Bytes,
}

pub struct Inner {
    pub seed: u64,
    dmax: u64,
    timeout: u64,
    now: u64,
    pub seq: u64,
    ids: u64,
    q: BinaryHeap<Reverse<(u64, u64, u64)>>,
    evs: HashMap<u64, Ev>,
    pub store: Store,
    epoch: u64,
    cur: Option<usize>,
    crash: Option<usize>,
    pending: Vec<Pending>,
    pub ops: Vec<OpRec>,
    scripts: BTreeMap<usize, Script>,
    fates: HashMap<(u32, u32), Fate>,
    partitions: Vec<(usize, u64, u64)>,
    phase: usize,
    quiet: bool,
    sleeps: BTreeMap<u64, (bool, Option<Waker>)>,
    pub stats: Stats,
    pub rot: Option<Rot>,
    pub audit: Audit,
    pub log: Option<Vec<String>>,
    call_cap: usize,
    pub capped: Vec<usize>,
    pub store_panics: Vec<String>,
}

struct Task {
    fut: LocalBox<Outcome>,
    client: usize,
}

pub struct World {
    pub inner: RefCell<Inner>,
    tasks: RefCell<BTreeMap<usize, Task>>,
    ready: Arc<Mutex<Vec<usize>>>,
    peers: RefCell<Vec<Option<Rc<dyn Peer>>>>,
    pub plan: Plan,
    pub homes: RefCell<Vec<Ns>>,
}

struct W {
    idx: usize,
    ready: Arc<Mutex<Vec<usize>>>,
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.ready.lock().unwrap().push(self.idx);
    }
}

/// Why a phase did not complete normally.
#[derive(Clone, Debug, PartialEq)]
pub enum Stuck {
    Deadlock(Vec<u32>),
    Livelock(Vec<u32>),
}

const STEP_CAP: u64 = 400_000;

impl Inner {
    /// Forgets the requests and operations of a completed phase.
    pub fn end_phase(&mut self) {
        self.pending.clear();
        self.sleeps.clear();
        self.ops.clear();
    }

    fn push(&mut self, at: u64, tie: u64, ev: Ev) {
        self.ids += 1;
        let id = self.ids;
        self.q.push(Reverse((at, mix(tie ^ self.seed), id)));
        self.evs.insert(id, ev);
    }

    pub fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    fn trace(&mut self, f: impl FnOnce() -> String) {
        if self.log.is_some() {
            let line = format!("t={} #{} {}", self.now, self.seq, f());
            self.log.as_mut().unwrap().push(line);
        }
    }

    fn delayed(&mut self, client: usize, from: u64, to: u64) -> u64 {
        let mut at = to;
        let mut hit = false;
        for (c, a, b) in &self.partitions {
            if *c == client && from < *b && at >= *a && at < *b {
                at = b + (at - a) % 3 + 1;
                hit = true;
            }
        }
        if hit {
            self.stats.fire("partition_delay");
        }
        at
    }

    /// Registers a storage request of the running operation.
    fn issue(&mut self, table: Table, req: Req) -> usize {
        let op = self.cur.expect("storage request outside an operation");
        let seq = self.tick();
        self.stats.calls += 1;
        let (op_id, client, n) = {
            let o = &self.ops[op];
            (o.id, o.client, o.calls.len())
        };
        let fate = if self.quiet {
            Fate::new(op_id, n as u32, Act::Ok)
        } else {
            self.fates
                .get(&(op_id, n as u32))
                .copied()
                .unwrap_or_else(|| Fate::new(op_id, n as u32, Act::Ok))
        };
        self.audit.request(table, &req);
        let tokens: Vec<Tok> = match &req {
            Req::Dump => vec![],
            Req::Fetch(t) | Req::Delete(t) => t.clone(),
            Req::Upsert(_, n) => n.iter().map(|x| x.0).collect(),
            Req::Insert(v) => v.iter().map(|x| x.0).collect(),
        };
        self.ops[op].calls.push(CallRec {
            table,
            kind: req.kind(),
            shape: req.shape(),
            tokens,
            issue: seq,
            act: fate.act,
            applied: vec![],
            result: None,
            failed: false,
            corrupted: false,
            duprow: false,
        });
        if n + 1 > self.call_cap {
            // Runaway operation: stop it.
            self.capped.push(op_id as usize);
            self.crash = Some(op);
        }
        let h = |k: u64| hash(&[self.seed, u64::from(op_id), n as u64, k]);
        let (d1, d2) = if self.quiet {
            (1, 1)
        } else {
            (1 + h(1) % self.dmax + fate.slow, 1 + h(2) % self.dmax)
        };
        let tie = h(3);
        let id = self.pending.len();
        let now = self.now;
        self.trace(|| {
            format!(
                "op {op_id} request {n} {} {:?} {:?}{}",
                req.kind(),
                table,
                req.shape(),
                if fate.act == Act::Ok { String::new() } else { format!(" [{}]", fate.act.name()) }
            )
        });
        let mut arrive = None;
        let at = now + d1;
        match fate.act {
            Act::Ok | Act::Reject | Act::RepLost | Act::Dup(_) | Act::CrashSent | Act::CrashApplied => {
                arrive = Some(self.delayed(client, now, at));
            }
            Act::Late(d) => arrive = Some(now + self.timeout + 1 + d),
            Act::ReqLost | Act::CrashBefore | Act::Panic => {}
        }
        if fate.act != Act::Ok {
            self.stats.fire(fate.act.name());
            if fate.act.is_crash() || fate.act == Act::RepLost {
                self.stats.hit(match (self.ops[op].kind.name(), req.is_write()) {
                    ("compact", true) => "lost_or_crash_at_compact_write",
                    ("compact", false) => "lost_or_crash_at_compact_read",
                    ("search", _) => "lost_or_crash_at_search",
                    (_, true) => "lost_or_crash_at_mod_write",
                    (_, false) => "lost_or_crash_at_mod_read",
                });
            }
        }
        if fate.slow > 0 {
            self.stats.fire("slow_request");
        }
        if matches!(fate.act, Act::CrashBefore | Act::Panic | Act::CrashSent) {
            self.crash = Some(op);
        }
        let epoch = self.epoch;
        self.pending.push(Pending {
            op,
            n,
            client,
            table,
            req: Some(req),
            fate,
            epoch,
            d2,
            reply: None,
            result: None,
            resolved: false,
            waker: None,
        });
        if let Some(at) = arrive {
            self.push(at, tie, Ev::Arrive(id, false));
        }
        let timeout = self.timeout;
        if !self.quiet {
            self.push(now + timeout, mix(tie), Ev::Timeout(id));
        }
        id
    }

    fn resolve(&mut self, id: usize, res: Result<Reply, String>, wake: &mut Vec<Waker>) {
        let p = &mut self.pending[id];
        if p.resolved {
            return;
        }
        p.resolved = true;
        let failed = res.is_err();
        p.result = Some(res);
        if let Some(w) = p.waker.take() {
            wake.push(w);
        }
        let (op, n) = (p.op, p.n);
        if failed {
            self.ops[op].calls[n].failed = true;
        }
    }

    fn arrive(&mut self, id: usize, again: bool, wake: &mut Vec<Waker>) {
        let (op, n, client, table, fate, d2) = {
            let p = &self.pending[id];
            (p.op, p.n, p.client, p.table, p.fate, p.d2)
        };
        let op_id = self.ops[op].id;
        if self.pending[id].epoch != self.epoch {
            self.stats.fire("lost_in_restart");
            self.trace(|| format!("op {op_id} request {n} lost: storage restarted"));
            self.resolve(id, Err("connection reset".into()), wake);
            return;
        }
        let now = self.now;
        if fate.act == Act::Reject {
            self.trace(|| format!("op {op_id} request {n} refused by storage"));
            self.pending[id].reply = Some(Err("storage error".into()));
            self.push(now + d2, hash(&[id as u64, 7]), Ev::Reply(id));
            return;
        }
        let keep = matches!(fate.act, Act::Dup(_)) && !again;
        let req = if keep {
            self.pending[id].req.clone().unwrap()
        } else {
            self.pending[id].req.take().unwrap()
        };
        let seq = self.tick();
        let h = hash(&[self.seed, u64::from(op_id), n as u64, 4]);
        let mut rows_corrupt = false;
        let res = {
            let (store, stats) = (&mut self.store, &mut self.stats);
            match catch_unwind(AssertUnwindSafe(|| store.apply(table, req, stats))) {
                Ok(r) => r,
                Err(e) => {
                    let m = panic_msg(e);
                    self.store_panics.push(format!("the store panicked: {m}"));
                    Err("storage panicked".into())
                }
            }
        };
        if let (Some(rot), Ok(Reply::Rows(rows))) = (&self.rot, &res) {
            if rot.table == table && rows.iter().any(|(t, v)| *t == rot.token && *v == rot.bad) {
                rows_corrupt = true;
            }
        }
        let first = self.ops[op].calls[n].applied.is_empty();
        self.ops[op].calls[n].applied.push(seq);
        self.stats.interleaving = hash(&[self.stats.interleaving, u64::from(op_id), n as u64, u64::from(again)]);
        let brief = match &res {
            Ok(Reply::Tokens(t)) => format!("{} tokens", t.len()),
            Ok(Reply::Rows(r)) => format!("{} rows", r.len()),
            Ok(Reply::Unit) => "done".into(),
            Err(e) => format!("error: {e}"),
        };
        if self.log.is_some() {
            let hist = {
                let mut d = hash_bytes(&[]);
                for (t, v) in self.store.dump(Table::Et).iter().chain(self.store.dump(Table::Ct).iter()) {
                    d = hash(&[d, hash_bytes(t), hash_bytes(v)]);
                }
                d
            };
            self.trace(|| {
                format!(
                    "op {op_id} request {n} executed{}: {brief} state={hist:016x}",
                    if again { " again" } else { "" }
                )
            });
        }
        if first && !again {
            self.ops[op].calls[n].result = Some(match &res {
                Ok(Reply::Rows(r)) => Ok(r.iter().map(|x| x.0).collect()),
                Ok(_) => Ok(vec![]),
                Err(e) => Err(e.clone()),
            });
        }
        if again {
            return;
        }
        if let Act::Dup(d) = fate.act {
            self.push(now + 1 + d, hash(&[id as u64, 8]), Ev::Arrive(id, true));
        }
        let mut res = res;
        let mut corrupted = rows_corrupt;
        let mut duprow = false;
        if let Ok(Reply::Rows(rows)) = &mut res {
            let mut rng = Rng::new(h);
            if fate.duprow && !rows.is_empty() {
                let i = rng.below(rows.len());
                let r = rows[i].clone();
                // At the end, at the start, in between.
                let at = match rng.below(3) {
                    0 => rows.len(),
                    1 => 0,
                    _ => rng.below(rows.len() + 1),
                };
                rows.insert(at, r);
                duprow = true;
                self.stats.fire("repeated_row");
            }
            if fate.shuffle && rows.len() > 1 {
                rng.shuffle(rows);
                self.stats.fire("reordered_rows");
            }
            if let Some(c) = fate.corrupt {
                if !rows.is_empty() {
                    let i = c as usize % rows.len();
                    crate::store::corrupt(&mut rows[i].1, c / 64);
                    corrupted = true;
                    self.stats.fire("corrupted_in_transit");
                }
            }
        }
        {
            let c = &mut self.ops[op].calls[n];
            c.corrupted |= corrupted;
            c.duprow |= duprow;
        }
        self.pending[id].reply = Some(res);
        match fate.act {
            Act::CrashApplied => self.crash = Some(op),
            Act::RepLost => {}
            _ => {
                let at = self.delayed(client, now, now + d2);
                self.push(at, hash(&[id as u64, 9]), Ev::Reply(id));
            }
        }
    }
}

pub struct CallFut {
    world: Rc<World>,
    req: Option<(Table, Req)>,
    id: usize,
}

impl Future for CallFut {
    type Output = Result<Reply, String>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let world = self.world.clone();
        let mut inner = world.inner.borrow_mut();
        if let Some((table, req)) = self.req.take() {
            self.id = inner.issue(table, req);
            let op = inner.cur.expect("storage request outside an operation");
            if inner.ops[op].calls.last().is_some_and(|c| c.act == Act::Panic) {
                drop(inner);
                panic!("injected");
            }
        }
        let p = &mut inner.pending[self.id];
        if p.resolved {
            return Poll::Ready(p.result.take().expect("result polled twice"));
        }
        p.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

pub struct Sleep {
    world: Rc<World>,
    id: Option<u64>,
    delay: u64,
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let world = self.world.clone();
        let mut inner = world.inner.borrow_mut();
        match self.id {
            None => {
                inner.ids += 1;
                let key = inner.ids;
                inner.sleeps.insert(key, (false, Some(cx.waker().clone())));
                self.id = Some(key);
                let at = inner.now + self.delay;
                let tie = hash(&[key, 11]);
                inner.push(at, tie, Ev::Wake(key as usize));
                Poll::Pending
            }
            Some(key) => {
                let s = inner.sleeps.get_mut(&key).unwrap();
                if s.0 {
                    Poll::Ready(())
                } else {
                    s.1 = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
}

impl World {
    pub fn new(plan: &Plan, log: bool) -> Rc<Self> {
        let fates = plan.fates.iter().map(|f| ((f.op, f.call), *f)).collect();
        Rc::new(Self {
            inner: RefCell::new(Inner {
                seed: plan.seed,
                dmax: plan.dmax.max(1),
                timeout: plan.timeout.max(2),
                now: 0,
                seq: 0,
                ids: 0,
                q: BinaryHeap::new(),
                evs: HashMap::new(),
                store: Store::new(plan.mem),
                epoch: 0,
                cur: None,
                crash: None,
                pending: vec![],
                ops: vec![],
                scripts: BTreeMap::new(),
                fates,
                partitions: vec![],
                phase: 0,
                quiet: false,
                sleeps: BTreeMap::new(),
                stats: Stats::default(),
                rot: None,
                audit: Audit::new(plan),
                log: if log { Some(vec![]) } else { None },
                call_cap: 400 + 6 * plan.kws.len(),
                capped: vec![],
                store_panics: vec![],
            }),
            tasks: RefCell::new(BTreeMap::new()),
            ready: Arc::new(Mutex::new(vec![])),
            peers: RefCell::new(plan.peers.iter().map(|_| None).collect()),
            homes: RefCell::new(plan.homes.clone()),
            plan: plan.clone(),
        })
    }

    pub fn call(self: &Rc<Self>, table: Table, req: Req) -> CallFut {
        CallFut { world: self.clone(), req: Some((table, req)), id: 0 }
    }

    pub fn sleep(self: &Rc<Self>, delay: u64) -> Sleep {
        Sleep { world: self.clone(), id: None, delay }
    }

    fn peer(self: &Rc<Self>, client: usize) -> Rc<dyn Peer> {
        let base = self.plan.peers[client];
        let slot = if self.plan.share {
            self.plan.peers.iter().position(|b| *b == base).unwrap()
        } else {
            client
        };
        let mut peers = self.peers.borrow_mut();
        peers[slot].get_or_insert_with(|| new_peer(base, self)).clone()
    }

    pub fn ns_of(&self, r: &NsRef) -> Ns {
        match r {
            NsRef::Home(i) => self.homes.borrow()[*i],
            NsRef::At(ns) => *ns,
        }
    }

    pub fn key(&self, ns: Ns) -> [u8; 16] {
        let mut k = [0; 16];
        k.copy_from_slice(&self.plan.keys[ns.key]);
        k
    }

    /// Builds the future of an operation.
    fn start(self: &Rc<Self>, peer: Rc<dyn Peer>, idx: usize, kind: &OpKind, ns: Ns) -> LocalBox<Outcome> {
        let key = self.key(ns);
        let label = self.plan.labels[ns.label].clone();
        match kind {
            OpKind::Mod { add, items, .. } => {
                let items: Items = items
                    .iter()
                    .map(|(iv, k)| (iv.clone(), k.iter().map(|i| self.plan.kws[*i].clone()).collect()))
                    .collect();
                let fut = peer.modify(*add, key, label, items);
                Box::pin(async move {
                    match fut.await {
                        Ok(n) => Outcome::Mod(n),
                        Err(e) => Outcome::Err(e),
                    }
                })
            }
            OpKind::Search { kws, stop, suspend, .. } => {
                let kws = kws.iter().map(|i| self.plan.kws[*i].clone()).collect();
                let world = self.clone();
                let (stop, suspend) = (*stop, *suspend);
                let cb: InterruptCb = Rc::new(move |m: Assoc| -> LocalBox<Result<bool, String>> {
                    let n = {
                        let mut w = world.inner.borrow_mut();
                        let seq = w.tick();
                        w.ops[idx].rounds.push((seq, m));
                        w.ops[idx].rounds.len() as u32
                    };
                    let world = world.clone();
                    Box::pin(async move {
                        if suspend > 0 {
                            world.sleep(suspend).await;
                        }
                        let mut w = world.inner.borrow_mut();
                        match stop {
                            Stop::After(k) if n >= k => {
                                let s = w.tick();
                                w.ops[idx].stop.get_or_insert(s);
                                Ok(true)
                            }
                            Stop::ErrAt(k) if n >= k => {
                                let s = w.tick();
                                w.ops[idx].stop.get_or_insert(s);
                                w.stats.fire("interrupt_callback_error");
                                Err("stop requested by callback".to_string())
                            }
                            _ => Ok(false),
                        }
                    })
                });
                let fut = peer.search(key, label, kws, cb);
                Box::pin(async move {
                    match fut.await {
                        Ok(r) => Outcome::Search(r),
                        Err(e) => Outcome::Err(e),
                    }
                })
            }
            OpKind::Raw { .. } => Box::pin(async { Outcome::Err(OpErr { kind: "harness", msg: "raw operation in the simulated network".into() }) }),
            OpKind::Compact { to, rate, filter, .. } => {
                let world = self.clone();
                let filter = filter.clone();
                let cb: FilterCb = Rc::new(move |d: BTreeSet<Bytes>| -> LocalBox<Result<BTreeSet<Bytes>, String>> {
                    let world = world.clone();
                    let filter = filter.clone();
                    Box::pin(async move {
                        let calls = {
                            let mut w = world.inner.borrow_mut();
                            let seq = w.tick();
                            let (et, ct) = (w.store.dump(Table::Et), w.store.dump(Table::Ct));
                            w.ops[idx].filters.push((seq, d.clone(), et, ct));
                            w.ops[idx].filters.len()
                        };
                        if matches!(filter, Filter::Extra(_)) {
                            world.sleep(3).await;
                        }
                        apply_filter(&filter, d, calls).ok_or_else(|| {
                            world.inner.borrow_mut().stats.fire("filter_callback_error");
                            "filter failed".to_string()
                        })
                    })
                });
                let fut = peer.compact(
                    key,
                    self.key(*to),
                    label,
                    self.plan.labels[to.label].clone(),
                    *rate,
                    cb,
                );
                Box::pin(async move {
                    match fut.await {
                        Ok(()) => Outcome::Compact,
                        Err(e) => Outcome::Err(e),
                    }
                })
            }
        }
    }

    fn launch(self: &Rc<Self>, client: usize, op: Op, peer: Rc<dyn Peer>) {
        let ns = self.ns_of(op.kind.ns());
        let idx = {
            let mut w = self.inner.borrow_mut();
            let invoke = w.tick();
            let phase = w.phase;
            if !w.quiet {
                w.stats.ops += 1;
            }
            w.ops.push(OpRec {
                id: op.id,
                phase,
                client,
                kind: op.kind.clone(),
                ns,
                invoke,
                end: u64::MAX,
                outcome: Outcome::Pending,
                rounds: vec![],
                filters: vec![],
                stop: None,
                calls: vec![],
            });
            w.trace(|| format!("client {client} starts {}", crate::plan::op_text(&op)));
            w.ops.len() - 1
        };
        let fut = match catch_unwind(AssertUnwindSafe(|| self.start(peer, idx, &op.kind, ns))) {
            Ok(f) => f,
            Err(e) => {
                self.finish(idx, client, Outcome::Panicked(panic_msg(e)));
                return;
            }
        };
        let n = {
            let mut t = self.tasks.borrow_mut();
            t.insert(idx, Task { fut, client });
            t.len() as u64
        };
        {
            let mut w = self.inner.borrow_mut();
            w.stats.max_concurrent = w.stats.max_concurrent.max(n);
        }
        self.ready.lock().unwrap().push(idx);
    }

    fn finish(self: &Rc<Self>, idx: usize, client: usize, outcome: Outcome) {
        let crashed = outcome == Outcome::Crashed;
        {
            let mut w = self.inner.borrow_mut();
            let end = w.tick();
            let op_id = w.ops[idx].id;
            w.trace(|| format!("op {op_id} -> {}", outcome.brief()));
            w.ops[idx].end = end;
            if outcome.is_ok() && !w.quiet {
                w.stats.ok_ops += 1;
            }
            w.ops[idx].outcome = outcome;
            let (now, seed, dmax) = (w.now, w.seed, w.dmax);
            let h = hash(&[seed, client as u64, u64::from(op_id), 21]);
            let think = if h % 4 == 0 { 0 } else { (h >> 8) % (dmax + 1) };
            w.push(now + think, h, Ev::Start(client));
        }
        if crashed && !self.plan.share && client < self.plan.peers.len() {
            // The process died: the next operation runs in a fresh one.
            self.peers.borrow_mut()[client] = None;
        }
    }

    fn poll_ready(self: &Rc<Self>) {
        loop {
            let batch: Vec<usize> = std::mem::take(&mut *self.ready.lock().unwrap());
            if batch.is_empty() {
                return;
            }
            for idx in batch {
                let Some(mut task) = self.tasks.borrow_mut().remove(&idx) else { continue };
                let waker = Waker::from(Arc::new(W { idx, ready: self.ready.clone() }));
                let mut cx = Context::from_waker(&waker);
                self.inner.borrow_mut().cur = Some(idx);
                let res = catch_unwind(AssertUnwindSafe(|| task.fut.as_mut().poll(&mut cx)));
                let crash = {
                    let mut w = self.inner.borrow_mut();
                    w.cur = None;
                    w.crash.take()
                };
                match res {
                    Ok(Poll::Ready(o)) => {
                        drop(task.fut);
                        self.finish(idx, task.client, o);
                    }
                    Ok(Poll::Pending) if crash == Some(idx) => {
                        let client = task.client;
                        drop(task);
                        self.finish(idx, client, Outcome::Crashed);
                    }
                    Ok(Poll::Pending) => {
                        self.tasks.borrow_mut().insert(idx, task);
                    }
                    Err(e) => {
                        let client = task.client;
                        // Dropping a future that panicked may panic again.
                        let _ = catch_unwind(AssertUnwindSafe(move || drop(task)));
                        let m = panic_msg(e);
                        let injected = crash == Some(idx) && m == "injected";
                        self.finish(idx, client, if injected { Outcome::Crashed } else { Outcome::Panicked(m) });
                    }
                }
            }
        }
    }

    /// Runs until nothing is left to do.
    fn drain(self: &Rc<Self>) -> Option<Stuck> {
        let mut steps = 0;
        self.poll_ready();
        loop {
            let mut wake = vec![];
            let mut start = None;
            let mut crash = None;
            {
                let mut w = self.inner.borrow_mut();
                let Some(Reverse((at, _, id))) = w.q.pop() else { break };
                steps += 1;
                w.stats.events += 1;
                w.now = w.now.max(at);
                let ev = w.evs.remove(&id).unwrap();
                match ev {
                    Ev::Start(c) => start = Some(c),
                    Ev::Arrive(c, again) => w.arrive(c, again, &mut wake),
                    Ev::Reply(c) => {
                        if w.pending[c].epoch == w.epoch {
                            if let Some(r) = w.pending[c].reply.take() {
                                w.resolve(c, r, &mut wake);
                            }
                        } else {
                            w.stats.fire("reply_lost_in_restart");
                            w.resolve(c, Err("connection reset".into()), &mut wake);
                        }
                    }
                    Ev::Timeout(c) => {
                        if !w.pending[c].resolved {
                            let op = w.pending[c].op;
                            if !w.ops[op].done() {
                                w.stats.fire("timeout");
                            }
                            w.resolve(c, Err("timeout".into()), &mut wake);
                        }
                    }
                    Ev::Wake(k) => {
                        let s = w.sleeps.get_mut(&(k as u64)).unwrap();
                        s.0 = true;
                        if let Some(x) = s.1.take() {
                            wake.push(x);
                        }
                    }
                    Ev::Restart => {
                        w.epoch += 1;
                        w.stats.fire("storage_restart");
                        w.trace(|| "storage restarts".into());
                    }
                }
                if let Some(c) = w.crash.take() {
                    crash = Some(c);
                }
            }
            for x in wake {
                x.wake();
            }
            if let Some(idx) = crash {
                if let Some(task) = self.tasks.borrow_mut().remove(&idx) {
                    let client = task.client;
                    drop(task);
                    self.finish(idx, client, Outcome::Crashed);
                }
            }
            if let Some(c) = start {
                let op = {
                    let mut w = self.inner.borrow_mut();
                    w.scripts.get_mut(&c).and_then(|s| {
                        let op = s.ops.get(s.next).cloned();
                        s.next += 1;
                        op
                    })
                };
                if let Some(op) = op {
                    let peer = self.peer(c);
                    if self.inner.borrow().audit.on() {
                        // A panic is not for the audit to judge.
                        let key = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (peer.keygen(), peer.new_label())));
                        let mut w = self.inner.borrow_mut();
                        if let Ok((key, label)) = key {
                            w.audit.key(key);
                            w.audit.label(label);
                            w.stats.hit("key_generated");
                        }
                    }
                    self.launch(c, op, peer);
                }
            }
            self.poll_ready();
            if steps > STEP_CAP {
                let t = self.tasks.borrow();
                let w = self.inner.borrow();
                return Some(Stuck::Livelock(t.keys().map(|i| w.ops[*i].id).collect()));
            }
        }
        let t = self.tasks.borrow();
        if t.is_empty() {
            None
        } else {
            let w = self.inner.borrow();
            Some(Stuck::Deadlock(t.keys().map(|i| w.ops[*i].id).collect()))
        }
    }

    /// Runs one phase of the plan.
    pub fn run_phase(self: &Rc<Self>, i: usize) -> Option<Stuck> {
        let phase: &Phase = &self.plan.phases[i];
        {
            let mut w = self.inner.borrow_mut();
            w.phase = i;
            w.quiet = false;
            let t0 = w.now;
            w.partitions = phase.partitions.iter().map(|(c, a, b)| (*c, t0 + a, t0 + b)).collect();
            if !w.partitions.is_empty() {
                w.stats.fire("partition");
            }
            for (k, t) in phase.restarts.iter().enumerate() {
                w.push(t0 + t, hash(&[k as u64, 31]), Ev::Restart);
            }
            if let Some((table, sel)) = phase.rot {
                let r = w.store.rot(table, sel);
                if r.is_some() {
                    w.stats.fire("corrupted_at_rest");
                }
                w.rot = r;
            }
            w.scripts.clear();
            let (seed, dmax) = (w.seed, w.dmax);
            for (c, ops) in &phase.clients {
                w.scripts.insert(*c, Script { ops: ops.clone(), next: 0 });
                let h = hash(&[seed, i as u64, *c as u64, 22]);
                w.push(t0 + h % (dmax + 1), h, Ev::Start(*c));
            }
        }
        let stuck = self.drain();
        {
            let mut w = self.inner.borrow_mut();
            w.stats.sim_time = w.now;
            w.partitions.clear();
        }
        stuck
    }

    /// Runs one operation alone, on healthy storage, from a fresh client.
    pub fn run_quiet(self: &Rc<Self>, base: bool, op: Op) -> (OpRec, Option<Stuck>) {
        {
            let mut w = self.inner.borrow_mut();
            w.quiet = true;
            w.scripts.clear();
        }
        let peer = new_peer(base, self);
        let idx = self.inner.borrow().ops.len();
        self.launch(usize::MAX, op, peer);
        let stuck = self.drain();
        let mut w = self.inner.borrow_mut();
        w.quiet = false;
        let rec = w.ops.remove(idx);
        // Requests refer to operations by index: none of this one is left.
        w.pending.clear();
        w.sleeps.clear();
        (rec, stuck)
    }

    pub fn dump(&self) -> (Dump, Dump) {
        let w = self.inner.borrow();
        (w.store.dump(Table::Et), w.store.dump(Table::Ct))
    }
}

pub fn apply_filter(f: &Filter, mut d: BTreeSet<Bytes>, calls: usize) -> Option<BTreeSet<Bytes>> {
    match f {
        Filter::Keep => Some(d),
        Filter::Drop(v) => {
            for x in v {
                d.remove(x);
            }
            Some(d)
        }
        Filter::Extra(v) => {
            d.extend(v.iter().cloned());
            Some(d)
        }
        Filter::DropAll => Some(BTreeSet::new()),
        Filter::Fail => None,
        Filter::FailAt(_) => (!f.failed(calls)).then_some(d),
    }
}

impl OpKind {
    pub fn ns(&self) -> &NsRef {
        match self {
            OpKind::Mod { ns, .. } | OpKind::Search { ns, .. } => ns,
            OpKind::Compact { from, .. } => from,
            OpKind::Raw { .. } => &NsRef::Home(0),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            OpKind::Mod { add: true, .. } => "add",
            OpKind::Mod { .. } => "delete",
            OpKind::Search { .. } => "search",
            OpKind::Compact { .. } => "compact",
            OpKind::Raw { .. } => "raw",
        }
    }
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
