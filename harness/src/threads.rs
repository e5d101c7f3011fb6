//! Real threads on the bundled store, run one at a time: a thread hands over control at every lock
//! acquisition (hook in the library) and between operations; the seed chooses who runs next.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

use async_trait::async_trait;
use cosmian_crypto_core::bytes_ser_de::Serializable;
use cosmian_findex::{
    ChainTable, DbInterface, DxEnc, EntryTable, Findex, InMemoryDb, InMemoryDbError, Index,
    TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens, ENTRY_LENGTH, LINK_LENGTH,
};

use crate::entropy::seed_thread;
use crate::oracle::*;
use crate::peers::cur;
use crate::plan::*;
use crate::rng::{hash, hash_str, Rng};
use crate::run::{kw_index, namespaces, RunOut};
use crate::store::{contract, mem_apply, mem_dump, now};
use crate::types::*;
use crate::world::{apply_filter, panic_msg, OpRec, Outcome, Stats};

struct St {
    cur: usize,
    live: Vec<bool>,
    stalled: Vec<bool>,
    dead: bool,
    steps: u64,
    seq: u64,
    hash: u64,
    switches: u64,
    log: Option<Vec<String>>,
}

pub struct Core {
    m: Mutex<St>,
    cv: Condvar,
    seed: u64,
    /// Percentage of scheduling points at which another thread is chosen.
    switch_pct: u64,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Core>, usize)>> = const { RefCell::new(None) };
}

const DEADLOCK: &str = "sim: every thread waits for a lock";
const STEP_CAP: u64 = 200_000;

impl Core {
    fn new(seed: u64, n: usize, switch_pct: u64, log: bool) -> Arc<Self> {
        Arc::new(Self {
            m: Mutex::new(St {
                cur: 0,
                live: vec![true; n],
                stalled: vec![false; n],
                dead: false,
                steps: 0,
                seq: 0,
                hash: 0,
                switches: 0,
                log: if log { Some(vec![]) } else { None },
            }),
            cv: Condvar::new(),
            seed,
            switch_pct,
        })
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, St> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn pick(&self, s: &mut St, me: Option<usize>) {
        s.steps += 1;
        let h = hash(&[self.seed, s.steps, 0x7a]);
        let cands: Vec<usize> =
            (0..s.live.len()).filter(|i| s.live[*i] && !s.stalled[*i]).collect();
        if cands.is_empty() {
            return;
        }
        let keep = me.is_some_and(|m| cands.contains(&m)) && (h >> 32) % 100 >= self.switch_pct;
        let next = if keep { me.unwrap() } else { cands[(h % cands.len() as u64) as usize] };
        if Some(next) != me {
            s.switches += 1;
        }
        s.hash = hash(&[s.hash, next as u64]);
        s.cur = next;
    }

    fn wait(&self, mut s: std::sync::MutexGuard<'_, St>, id: usize) {
        self.cv.notify_all();
        while s.cur != id && !s.dead {
            s = self.cv.wait(s).unwrap_or_else(|e| e.into_inner());
        }
        if s.dead {
            drop(s);
            if !std::thread::panicking() {
                std::panic::panic_any(DEADLOCK.to_string());
            }
        }
    }

    /// The thread `id` is about to take a lock.
    fn point(&self, id: usize, free: &dyn Fn() -> bool) {
        let mut s = self.lock();
        if s.steps > STEP_CAP {
            s.dead = true;
        }
        self.pick(&mut s, Some(id));
        self.wait(s, id);
        loop {
            if free() {
                let mut s = self.lock();
                s.stalled.iter_mut().for_each(|x| *x = false);
                return;
            }
            let mut s = self.lock();
            s.stalled[id] = true;
            if (0..s.live.len()).all(|i| !s.live[i] || s.stalled[i]) {
                s.dead = true;
            } else {
                self.pick(&mut s, None);
            }
            self.wait(s, id);
        }
    }

    fn end(&self, id: usize) {
        let mut s = self.lock();
        s.live[id] = false;
        s.stalled.iter_mut().for_each(|x| *x = false);
        self.pick(&mut s, None);
        self.cv.notify_all();
    }

    fn tick(&self) -> u64 {
        let mut s = self.lock();
        s.seq += 1;
        s.seq
    }

    fn trace(&self, f: impl FnOnce() -> String) {
        let mut s = self.lock();
        if s.log.is_some() {
            let line = format!("#{} {}", s.seq, f());
            s.log.as_mut().unwrap().push(line);
        }
    }
}

fn hook(free: &dyn Fn() -> bool) {
    if std::thread::panicking() {
        return;
    }
    let me = ME.with(|m| m.borrow().clone());
    if let Some((core, id)) = me {
        core.point(id, free);
    }
}

/// Runs each body in its own thread, one at a time. Returns the panics.
pub fn baton<T: Send + 'static>(
    core: &Arc<Core>,
    seed: u64,
    bodies: Vec<Box<dyn FnOnce(&Core) -> T + Send>>,
) -> Vec<Result<T, String>> {
    {
        let mut s = core.lock();
        core.pick(&mut s, None);
    }
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(id, body)| {
            let core = core.clone();
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    seed_thread(hash(&[seed, id as u64, 0x7b]));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let s = core.lock();
                        core.wait(s, id);
                        ME.with(|m| *m.borrow_mut() = Some((core.clone(), id)));
                        cosmian_findex::sim::set_yield_hook(Some(hook));
                        body(&core)
                    }));
                    cosmian_findex::sim::set_yield_hook(None);
                    core.end(id);
                    r.map_err(panic_msg)
                })
                .expect("cannot start a thread")
        })
        .collect();
    hs.into_iter()
        .map(|h| h.join().unwrap_or_else(|e| Err(panic_msg(e))))
        .collect()
}

/// One store used by several indexes and threads.
#[derive(Debug, Clone)]
pub struct Shared<const N: usize>(pub Arc<InMemoryDb<N>>);

#[async_trait(?Send)]
impl<const N: usize> DbInterface<N> for Shared<N> {
    type Error = InMemoryDbError;
    async fn dump_tokens(&self) -> Result<Tokens, Self::Error> {
        self.0.dump_tokens().await
    }
    async fn fetch(&self, t: Tokens) -> Result<TokenWithEncryptedValueList<N>, Self::Error> {
        self.0.fetch(t).await
    }
    async fn upsert(
        &self,
        o: TokenToEncryptedValueMap<N>,
        n: TokenToEncryptedValueMap<N>,
    ) -> Result<TokenToEncryptedValueMap<N>, Self::Error> {
        self.0.upsert(o, n).await
    }
    async fn insert(&self, v: TokenToEncryptedValueMap<N>) -> Result<(), Self::Error> {
        self.0.insert(v).await
    }
    async fn delete(&self, t: Tokens) -> Result<(), Self::Error> {
        self.0.delete(t).await
    }
}

pub type Fx = Findex<
    InMemoryDbError,
    EntryTable<ENTRY_LENGTH, Shared<ENTRY_LENGTH>>,
    ChainTable<LINK_LENGTH, Shared<LINK_LENGTH>>,
>;

pub struct Stores {
    pub et: Arc<InMemoryDb<ENTRY_LENGTH>>,
    pub ct: Arc<InMemoryDb<LINK_LENGTH>>,
}

impl Stores {
    pub fn fx(&self) -> Fx {
        Findex::new(
            EntryTable::setup(Shared(self.et.clone())),
            ChainTable::setup(Shared(self.ct.clone())),
        )
    }
    pub fn dump(&self) -> (Dump, Dump) {
        (mem_dump(&self.et), mem_dump(&self.ct))
    }
}

pub fn run_threads(plan: &Plan, log: bool) -> RunOut {
    if plan.profile == "memops" {
        run_memops(plan, log)
    } else {
        run_index(plan, log).0
    }
}

// ---------------------------------------------------------------------------------------------
// Direct use of the store.

const V: usize = 24;

#[derive(Clone, Debug)]
struct RawRec {
    id: u32,
    thread: usize,
    what: Raw,
    invoke: u64,
    end: u64,
    res: Result<Reply, String>,
}

#[derive(Clone, Debug)]
enum Raw {
    Req(Req),
    Snapshot,
    Len,
}

fn value(op: u32, sel: u64) -> Bytes {
    // A few values are shared between operations.
    let s = if sel % 4 == 0 { 1000 + sel / 4 % 3 } else { u64::from(op) };
    Rng::new(hash(&[s, 3])).bytes(12 + V + 16)
}

fn raw_req(plan: &Plan, op: &Op, seen: &BTreeMap<Tok, Bytes>) -> Option<Raw> {
    let OpKind::Raw { code, sel } = op.kind else { return None };
    let mut toks: Vec<Tok> = plan
        .kws
        .iter()
        .map(|k| {
            let mut t = [0; 32];
            Rng::new(crate::rng::hash_bytes(k)).fill(&mut t);
            t
        })
        .collect();
    if plan.seed % 3 == 0 {
        // Tokens which differ by one bit.
        for i in 1..toks.len() {
            toks[i] = toks[0];
            toks[i][(plan.seed / 3 + 17 * i as u64) as usize % 32] ^= 1 << i;
        }
    }
    let mut r = Rng::new(hash(&[plan.seed, sel]));
    let some = |r: &mut Rng| -> Vec<Tok> {
        let mut v: Vec<Tok> = toks.iter().filter(|_| r.pct(55)).copied().collect();
        if v.is_empty() && r.pct(90) {
            v.push(*r.pick(&toks));
        }
        v
    };
    Some(match code % 7 {
        0 => Raw::Req(Req::Dump),
        1 => Raw::Req(Req::Fetch(some(&mut r))),
        2 => {
            let new = some(&mut r);
            let mut old = vec![];
            for t in &toks {
                let named = new.contains(t);
                match seen.get(t) {
                    Some(v) if r.pct(if named { 75 } else { 5 }) => {
                        let mut v = v.clone();
                        if r.pct(15) {
                            // Almost the value seen: the nonce, the ciphertext or the tag differs.
                            let i = *r.pick(&[0, 11, 12, 12 + V / 2, 11 + V, 12 + V, 27 + V]);
                            v[i] ^= 1 << r.below(8);
                        }
                        old.push((*t, v));
                    }
                    _ if r.pct(if named { 12 } else { 3 }) => old.push((*t, value(op.id, r.next()))),
                    _ => {}
                }
            }
            let new = new.into_iter().map(|t| (t, value(op.id, r.next()))).collect();
            Raw::Req(Req::Upsert(old, new))
        }
        3 => Raw::Req(Req::Insert(some(&mut r).into_iter().map(|t| (t, value(op.id, r.next()))).collect())),
        4 => Raw::Req(Req::Delete(some(&mut r))),
        5 => Raw::Snapshot,
        _ => Raw::Len,
    })
}

fn snapshot_rows<const N: usize>(db: &InMemoryDb<N>) -> Result<Reply, String> {
    let bytes = db.serialize().map_err(|e| format!("cannot serialize: {e}"))?;
    let back = InMemoryDb::<N>::deserialize(&bytes)
        .map_err(|e| format!("a snapshot of {} bytes cannot be read back: {e}", bytes.len()))?;
    let mut m: Vec<(Tok, Bytes)> = back
        .lock()
        .unwrap()
        .iter()
        .map(|(t, v)| (crate::store::tok(t), Bytes::from(v)))
        .collect();
    m.sort();
    Ok(Reply::Rows(m))
}

fn brief(r: &Result<Reply, String>) -> String {
    match r {
        Ok(Reply::Tokens(t)) => {
            format!("tokens {}", t.iter().map(|t| hex(&t[..2])).collect::<Vec<_>>().join(","))
        }
        Ok(Reply::Rows(r)) => format!(
            "rows {}",
            r.iter().map(|(t, v)| format!("{}={}", hex(&t[..2]), hex(&v[..3.min(v.len())]))).collect::<Vec<_>>().join(",")
        ),
        Ok(Reply::Unit) => "done".into(),
        Err(e) => format!("error {}", e.chars().take(60).collect::<String>()),
    }
}

fn show_raw(r: &Raw) -> String {
    let p = |v: &[(Tok, Bytes)]| {
        v.iter().map(|(t, v)| format!("{}={}", hex(&t[..2]), hex(&v[..3]))).collect::<Vec<_>>().join(",")
    };
    let q = |v: &[Tok]| v.iter().map(|t| hex(&t[..2])).collect::<Vec<_>>().join(",");
    match r {
        Raw::Req(Req::Dump) => "dump".into(),
        Raw::Req(Req::Fetch(t)) => format!("fetch {}", q(t)),
        Raw::Req(Req::Delete(t)) => format!("delete {}", q(t)),
        Raw::Req(Req::Insert(v)) => format!("insert {}", p(v)),
        Raw::Req(Req::Upsert(o, n)) => format!("upsert old [{}] new [{}]", p(o), p(n)),
        Raw::Snapshot => "snapshot".into(),
        Raw::Len => "len".into(),
    }
}

/// Is the recorded result the one of the contract on this table?
fn agrees(t: &mut Dump, rec: &RawRec) -> bool {
    match &rec.what {
        Raw::Snapshot => match &rec.res {
            Ok(Reply::Rows(r)) => r.iter().cloned().collect::<Dump>() == *t && r.len() == t.len(),
            _ => false,
        },
        Raw::Len => matches!(&rec.res, Ok(Reply::Tokens(v)) if v.len() == t.len()),
        Raw::Req(req) => match (contract(t, req.clone()), &rec.res) {
            (Err(_), Err(_)) => true,
            (Ok(Reply::Unit), Ok(Reply::Unit)) => true,
            (Ok(Reply::Tokens(mut a)), Ok(Reply::Tokens(b))) => {
                let mut b = b.clone();
                a.sort_unstable();
                b.sort_unstable();
                a == b
            }
            (Ok(Reply::Rows(mut a)), Ok(Reply::Rows(b))) => {
                let mut b = b.clone();
                a.sort();
                b.sort();
                a == b
            }
            _ => false,
        },
    }
}

/// Wing-Gong search with memoisation.
fn linearizable(init: &Dump, recs: &[RawRec], last: &Dump) -> bool {
    fn go(
        done: u64,
        state: &Dump,
        recs: &[RawRec],
        last: &Dump,
        seen: &mut HashSet<(u64, Dump)>,
    ) -> bool {
        if done.count_ones() as usize == recs.len() {
            return state == last;
        }
        if !seen.insert((done, state.clone())) {
            return false;
        }
        let horizon = (0..recs.len())
            .filter(|i| done >> i & 1 == 0)
            .map(|i| recs[i].end)
            .min()
            .unwrap();
        for i in 0..recs.len() {
            if done >> i & 1 == 1 || recs[i].invoke > horizon {
                continue;
            }
            let mut s = state.clone();
            if agrees(&mut s, &recs[i]) && go(done | 1 << i, &s, recs, last, seen) {
                return true;
            }
        }
        false
    }
    go(0, init, recs, last, &mut HashSet::new())
}

fn run_memops(plan: &Plan, log: bool) -> RunOut {
    let mut out = RunOut::default();
    let db: Arc<InMemoryDb<V>> = Arc::new(InMemoryDb::default());
    let mut init = Dump::new();
    let mut trace = 0;
    for (i, phase) in plan.phases.iter().enumerate() {
        let seed = hash(&[plan.seed, i as u64]);
        let n = phase.clients.len();
        if n == 0 {
            continue;
        }
        let core = Core::new(seed, n, plan.dmax, log);
        let recs: Arc<Mutex<Vec<RawRec>>> = Arc::new(Mutex::new(vec![]));
        let bodies: Vec<Box<dyn FnOnce(&Core) + Send>> = phase
            .clients
            .iter()
            .enumerate()
            .map(|(id, (_, ops))| {
                let (ops, plan, db, recs) = (ops.clone(), plan.clone(), db.clone(), recs.clone());
                let b: Box<dyn FnOnce(&Core) + Send> = Box::new(move |core| {
                    let mut seen: BTreeMap<Tok, Bytes> = BTreeMap::new();
                    for op in &ops {
                        let Some(what) = raw_req(&plan, op, &seen) else { continue };
                        hook(&|| true);
                        let invoke = core.tick();
                        core.trace(|| format!("thread {id} op {}: {}", op.id, show_raw(&what)));
                        let res = match &what {
                            Raw::Req(r) => mem_apply(&db, r),
                            Raw::Snapshot => snapshot_rows(&db),
                            Raw::Len => Ok(Reply::Tokens(vec![[0; 32]; db.len()])),
                        };
                        let end = core.tick();
                        core.trace(|| format!("thread {id} op {} -> {}", op.id, brief(&res)));
                        if let Ok(Reply::Rows(r)) = &res {
                            seen.extend(r.iter().cloned());
                        }
                        if let (Raw::Req(Req::Upsert(_, n)), Ok(Reply::Rows(rej))) = (&what, &res) {
                            seen.extend(n.iter().filter(|x| rej.iter().all(|y| y.0 != x.0)).cloned());
                        }
                        if let (Raw::Req(Req::Insert(n)), Ok(_)) = (&what, &res) {
                            seen.extend(n.iter().cloned());
                        }
                        recs.lock().unwrap_or_else(|e| e.into_inner()).push(RawRec {
                            id: op.id,
                            thread: id,
                            what,
                            invoke,
                            end,
                            res,
                        });
                    }
                });
                b
            })
            .collect();
        let res = baton(&core, seed, bodies);
        finish_core(&core, &res, i, &mut out, n);
        let recs = recs.lock().unwrap_or_else(|e| e.into_inner()).clone();
        out.stats.ops += recs.len() as u64;
        out.stats.ok_ops += recs.iter().filter(|r| r.res.is_ok()).count() as u64;
        for r in &recs {
            trace = hash(&[trace, u64::from(r.id), r.invoke, r.end, hash_str(&brief(&r.res))]);
            if let Err(e) = &r.res {
                out.stats.hit("store_operation_refused");
                if matches!(r.what, Raw::Snapshot) {
                    out.viols.push(viol("snap", format!("op {}: {e}", r.id)));
                }
            }
            if recs.iter().any(|q| q.thread != r.thread && q.invoke < r.end && r.invoke < q.end) {
                out.stats.hit("overlapping_store_operations");
            }
        }
        if !out.viols.is_empty() {
            break;
        }
        let last = mem_dump(&db);
        if recs.len() <= 64 && !linearizable(&init, &recs, &last) {
            let only_snap = {
                let without: Vec<RawRec> =
                    recs.iter().filter(|r| !matches!(r.what, Raw::Snapshot)).cloned().collect();
                linearizable(&init, &without, &last)
            };
            out.viols.push(viol(
                if only_snap { "snap_lin" } else { "mem_lin" },
                format!(
                    "no order of the operations of phase {i} gives these results: {}",
                    recs.iter()
                        .map(|r| format!("[{}..{}] {} -> {}", r.invoke, r.end, show_raw(&r.what), brief(&r.res)))
                        .collect::<Vec<_>>()
                        .join("; ")
                ),
            ));
            break;
        }
        // At rest.
        if db.length() != db.serialize().map(|b| b.len()).unwrap_or(0) {
            out.viols.push(viol("snap", format!("announced length {} is wrong", db.length())));
        }
        match snapshot_rows(&db) {
            Ok(Reply::Rows(r)) if r.iter().cloned().collect::<Dump>() == last => {}
            r => out.viols.push(viol("snap", format!("store at rest not restored exactly: {}", brief(&r)))),
        }
        init = last;
    }
    out.trace = hash(&[trace, out.stats.interleaving, hash_str(&plan.to_text())]);
    out.nontrivial = out.stats.ops >= 2 && out.stats.max_concurrent >= 2;
    out
}

fn finish_core<T>(core: &Core, res: &[Result<T, String>], phase: usize, out: &mut RunOut, n: usize) {
    let s = core.lock();
    out.stats.events += s.steps;
    out.stats.interleaving = hash(&[out.stats.interleaving, s.hash]);
    out.stats.max_concurrent = out.stats.max_concurrent.max(n as u64);
    *out.stats.fired.entry("thread_switch").or_default() += s.switches;
    if let Some(l) = &s.log {
        out.log.extend(l.iter().cloned());
    }
    if s.dead {
        out.viols.push(viol(
            "deadlock",
            format!("in phase {phase} no thread can proceed ({} steps)", s.steps),
        ));
        return;
    }
    for (i, r) in res.iter().enumerate() {
        if let Err(m) = r {
            out.viols.push(viol("panic", format!("thread {i} panicked in phase {phase}: {m}")));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Indexes shared by threads.

/// Serialized tables.
#[derive(Clone)]
pub struct Saved {
    pub et: Vec<u8>,
    pub ct: Vec<u8>,
}

pub struct Env {
    pub plan: Plan,
    pub stores: Arc<Stores>,
    pub homes: Vec<Ns>,
}

impl Env {
    fn key(&self, ns: Ns) -> [u8; 16] {
        let mut k = [0; 16];
        k.copy_from_slice(&self.plan.keys[ns.key]);
        k
    }
    fn ns(&self, r: &NsRef) -> Ns {
        match r {
            NsRef::Home(i) => self.homes[*i],
            NsRef::At(n) => *n,
        }
    }

    /// Runs one operation to completion on the calling thread.
    fn exec(&self, fx: &Fx, op: &Op, client: usize, tick: Rc<dyn Fn() -> u64>, phase: usize) -> OpRec {
        let ns = self.ns(op.kind.ns());
        let mut rec = OpRec {
            id: op.id,
            phase,
            client,
            kind: op.kind.clone(),
            ns,
            invoke: tick(),
            end: 0,
            outcome: Outcome::Pending,
            rounds: vec![],
            filters: vec![],
            stop: None,
            calls: vec![],
        };
        let key = self.key(ns);
        let label = self.plan.labels[ns.label].clone();
        let rounds: Rc<RefCell<Vec<(u64, Assoc)>>> = Rc::default();
        let filters: Rc<RefCell<Vec<(u64, BTreeSet<Bytes>, Dump, Dump)>>> = Rc::default();
        let stopped: Rc<RefCell<Option<u64>>> = Rc::default();
        let res = catch_unwind(AssertUnwindSafe(|| match &op.kind {
            OpKind::Mod { add, items, .. } => {
                let items: Items = items
                    .iter()
                    .map(|(iv, k)| (iv.clone(), k.iter().map(|i| self.plan.kws[*i].clone()).collect()))
                    .collect();
                match now(cur::do_modify(fx, *add, key, label, items)) {
                    Ok(Ok(n)) => Outcome::Mod(n),
                    Ok(Err(e)) => Outcome::Err(e),
                    Err(m) => Outcome::Panicked(m),
                }
            }
            OpKind::Search { kws, stop, .. } => {
                let kws = kws.iter().map(|i| self.plan.kws[*i].clone()).collect();
                let (r, t, s, stop) = (rounds.clone(), tick.clone(), stopped.clone(), *stop);
                let cb: InterruptCb = Rc::new(move |m| {
                    r.borrow_mut().push((t(), m));
                    let n = r.borrow().len() as u32;
                    let res = match stop {
                        Stop::After(k) if n >= k => Ok(true),
                        Stop::ErrAt(k) if n >= k => Err("stop requested by callback".to_string()),
                        _ => Ok(false),
                    };
                    if res != Ok(false) {
                        s.borrow_mut().get_or_insert(t());
                    }
                    Box::pin(async move { res })
                });
                match now(cur::do_search(fx, key, label, kws, cb)) {
                    Ok(Ok(r)) => Outcome::Search(r),
                    Ok(Err(e)) => Outcome::Err(e),
                    Err(m) => Outcome::Panicked(m),
                }
            }
            OpKind::Compact { to, rate, filter, .. } => {
                let (fs, t, f, st) = (filters.clone(), tick.clone(), filter.clone(), self.stores.clone());
                let cb: FilterCb = Rc::new(move |d: BTreeSet<Bytes>| {
                    let (et, ct) = st.dump();
                    fs.borrow_mut().push((t(), d.clone(), et, ct));
                    let calls = fs.borrow().len();
                    let r = apply_filter(&f, d, calls).ok_or_else(|| "filter failed".to_string());
                    Box::pin(async move { r })
                });
                let l2 = self.plan.labels[to.label].clone();
                match now(cur::do_compact(fx, key, self.key(*to), label, l2, *rate, cb)) {
                    Ok(Ok(())) => Outcome::Compact,
                    Ok(Err(e)) => Outcome::Err(e),
                    Err(m) => Outcome::Panicked(m),
                }
            }
            OpKind::Raw { .. } => Outcome::Compact,
        }));
        rec.outcome = match res {
            Ok(o) => o,
            Err(e) => {
                let m = panic_msg(e);
                if m == DEADLOCK {
                    std::panic::panic_any(m);
                }
                Outcome::Panicked(m)
            }
        };
        rec.rounds = rounds.borrow().clone();
        rec.filters = filters.borrow().clone();
        rec.stop = *stopped.borrow();
        rec.end = tick();
        rec
    }

    pub fn read(&self, ns: Ns) -> OpRec {
        let fx = self.stores.fx();
        let kws = (0..self.plan.kws.len()).collect();
        let op = Op {
            id: u32::MAX,
            kind: OpKind::Search { ns: NsRef::At(ns), kws, stop: Stop::Never, suspend: 0 },
        };
        let n = RefCell::new(0);
        let tick = move || {
            *n.borrow_mut() += 1;
            *n.borrow()
        };
        self.exec(&fx, &op, usize::MAX, Rc::new(tick), 0)
    }

    pub fn content(&self, ns: Ns, viols: &mut Vec<Viol>) -> Content {
        let op = self.read(ns);
        if !op.outcome.is_ok() {
            viols.push(viol("unreadable", format!("{ns:?} cannot be read back: {}", op.outcome.brief())));
        }
        viols.extend(check_search(&op, &self.plan));
        self.plan
            .kws
            .iter()
            .map(|k| op.rounds.first().and_then(|r| r.1.get(k)).cloned())
            .collect()
    }
}

/// Threads sharing one store; returns the snapshots they took.
pub fn run_index(plan: &Plan, log: bool) -> (RunOut, Arc<Stores>, Vec<Saved>) {
    let mut out = RunOut::default();
    let stores = Arc::new(Stores { et: Arc::default(), ct: Arc::default() });
    let index = kw_index(plan);
    let nss = namespaces(plan);
    let n_kws = plan.kws.len();
    let mut pre: State = nss.iter().map(|ns| (*ns, vec![None; n_kws])).collect();
    let mut pre_dump = stores.dump();
    let mut homes = plan.homes.clone();
    let mut saved: Vec<Saved> = vec![];
    let mut trace = 0;
    let mut stats = Stats::default();
    for (i, phase) in plan.phases.iter().enumerate() {
        let n = phase.clients.len();
        if n == 0 {
            continue;
        }
        let seed = hash(&[plan.seed, i as u64]);
        let core = Core::new(seed, n, plan.dmax, log);
        let shared = if plan.share { Some(Arc::new(stores.fx())) } else { None };
        let all: Arc<Mutex<(Vec<OpRec>, Vec<Saved>)>> = Arc::default();
        let bodies: Vec<Box<dyn FnOnce(&Core) + Send>> = phase
            .clients
            .iter()
            .enumerate()
            .map(|(id, (_, ops))| {
                let env = Env { plan: plan.clone(), stores: stores.clone(), homes: homes.clone() };
                let (ops, all, shared) = (ops.clone(), all.clone(), shared.clone());
                let b: Box<dyn FnOnce(&Core) + Send> = Box::new(move |core| {
                    crate::tracer::enable(env.plan.trace);
                    let fx = shared.unwrap_or_else(|| Arc::new(env.stores.fx()));
                    let me: &'static Core = unsafe { &*std::ptr::from_ref(core) };
                    let tick: Rc<dyn Fn() -> u64> = Rc::new(move || me.tick());
                    for op in &ops {
                        hook(&|| true);
                        if let OpKind::Raw { .. } = op.kind {
                            let s = Saved {
                                et: env.stores.et.serialize().unwrap_or_default().to_vec(),
                                ct: env.stores.ct.serialize().unwrap_or_default().to_vec(),
                            };
                            core.trace(|| format!("thread {id} saves {} + {} bytes", s.et.len(), s.ct.len()));
                            all.lock().unwrap_or_else(|e| e.into_inner()).1.push(s);
                            continue;
                        }
                        core.trace(|| format!("thread {id} starts {}", op_text(op)));
                        let rec = env.exec(&fx, op, id, tick.clone(), i);
                        core.trace(|| format!("thread {id} op {} -> {}", op.id, rec.outcome.brief()));
                        all.lock().unwrap_or_else(|e| e.into_inner()).0.push(rec);
                    }
                });
                b
            })
            .collect();
        let res = baton(&core, seed, bodies);
        finish_core(&core, &res, i, &mut out, n);
        if out.viols.iter().any(|v| v.class == "deadlock") {
            break;
        }
        let (mut ops, snaps) = std::mem::take(&mut *all.lock().unwrap_or_else(|e| e.into_inner()));
        saved.extend(snaps);
        ops.sort_by_key(|o| o.invoke);
        stats.ops += ops.len() as u64;
        stats.ok_ops += ops.iter().filter(|o| o.outcome.is_ok()).count() as u64;
        let env = Env { plan: plan.clone(), stores: stores.clone(), homes: homes.clone() };
        let mut post = State::new();
        if stores.et.is_poisoned() || stores.ct.is_poisoned() {
            out.viols.push(viol("panic", format!("phase {i}: a thread panicked while it held the store")));
            break;
        }
        for ns in &nss {
            post.insert(*ns, env.content(*ns, &mut out.viols));
        }
        let post_dump = stores.dump();
        for o in &ops {
            trace = hash(&[trace, u64::from(o.id), o.invoke, o.end, hash_str(&o.outcome.brief())]);
        }
        trace = hash(&[trace, hash_str(&format!("{post:?}"))]);
        let ctx = PhaseCtx {
            plan,
            index: &index,
            phase: i,
            ops: &ops,
            pre: &pre,
            post: &post,
            pre_dump: &pre_dump,
            post_dump: &post_dump,
            tainted: false,
            rotation_interrupted: false,
            stale: &std::collections::BTreeSet::new(),
        };
        let v = check_phase(&ctx, &mut stats, &mut out.known);
        out.viols.extend(v);
        for o in &ops {
            if let (OpKind::Compact { to, .. }, Outcome::Compact) = (&o.kind, &o.outcome) {
                for h in &mut homes {
                    if *h == o.ns {
                        *h = *to;
                    }
                }
            }
        }
        pre = post;
        pre_dump = post_dump;
        if !out.viols.is_empty() {
            break;
        }
    }
    out.stats.merge(&stats);
    out.trace = hash(&[trace, out.stats.interleaving, hash_str(&plan.to_text())]);
    out.nontrivial = out.stats.ops >= 2 && out.stats.max_concurrent >= 2;
    (out, stores, saved)
}
