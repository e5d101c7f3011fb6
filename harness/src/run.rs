//! Executes one plan from start to end and collects every violation.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

use crate::entropy::seed_thread;
use crate::oracle::*;
use crate::plan::*;
use crate::rng::{hash, hash_bytes, hash_str};
use crate::types::*;
use crate::world::{panic_msg, OpRec, Outcome, Stats, Stuck, World};

#[derive(Clone, Debug, Default)]
pub struct RunOut {
    pub viols: Vec<Viol>,
    pub known: Vec<String>,
    pub stats: Stats,
    pub log: Vec<String>,
    /// Hash of everything observable in the run.
    pub trace: u64,
    pub nontrivial: bool,
    /// Requests seen by storage, in order.
    pub shape: Vec<String>,
}

thread_local! {
    /// Did the last panic of this thread come from the library?
    static BLAME: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn set_blame(library: bool) {
    BLAME.with(|b| b.set(library));
}

/// A panic that no simulated component caught: of the library when the simulator calls it directly.
fn caught(f: impl FnOnce() -> RunOut) -> RunOut {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|e| {
        let class = if BLAME.with(std::cell::Cell::get) { "panic" } else { "harness" };
        RunOut { viols: vec![viol(class, panic_msg(e))], ..RunOut::default() }
    })
}

/// Runs a plan in a fresh thread, whose randomness only depends on the plan.
pub fn run(plan: &Plan, log: bool) -> RunOut {
    let plan = plan.clone();
    let seed = plan.seed;
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            seed_thread(hash(&[seed, 0x5eed]));
            cosmian_findex::sim::set_compact_batch_size(plan.batch);
            crate::tracer::enable(plan.trace);
            let mut out = caught(|| match plan.profile.as_str() {
                "memops" | "threads" | "threadc" => crate::threads::run_threads(&plan, log),
                "snapbig" => crate::snap::run_big(&plan, log),
                "snap" => crate::snap::run_snap(&plan, log),
                "twin" => run_twin(&plan, log),
                _ => run_world(&plan, log),
            });
            if crate::tracer::bytes() > 0 {
                out.stats.hit("traces_read");
            }
            out
        })
        .expect("cannot start a thread");
    match h.join() {
        Ok(o) => o,
        Err(e) => RunOut { viols: vec![viol("harness", panic_msg(e))], ..RunOut::default() },
    }
}

fn run_twin(plan: &Plan, log: bool) -> RunOut {
    let mut flipped = plan.clone();
    for p in &mut flipped.phases {
        for (_, ops) in &mut p.clients {
            for op in ops {
                if let OpKind::Mod { add, .. } = &mut op.kind {
                    *add = !*add;
                }
            }
        }
    }
    let mut a = run_world(plan, log);
    // The same random choices in both runs.
    let p2 = flipped.clone();
    let b = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            seed_thread(hash(&[p2.seed, 0x5eed]));
            crate::tracer::enable(p2.trace);
            caught(|| run_world(&p2, log))
        })
        .expect("cannot start a thread")
        .join();
    let b = match b {
        Ok(b) => b,
        Err(e) => {
            a.viols.push(viol("harness", panic_msg(e)));
            return a;
        }
    };
    if let Some(i) = (0..a.shape.len().max(b.shape.len())).find(|i| a.shape.get(*i) != b.shape.get(*i)) {
        let none = "nothing".to_string();
        a.viols.push(viol(
            "shape",
            format!(
                "request {i} seen by storage is [{}] in the history and [{}] once additions and deletions are swapped",
                a.shape.get(i).unwrap_or(&none),
                b.shape.get(i).unwrap_or(&none)
            ),
        ));
    }
    a.viols.extend(b.viols.into_iter().filter(|v| v.class == "panic"));
    a.stats.merge(&b.stats);
    a.trace = hash(&[a.trace, b.trace]);
    a.log.push("--- swapped additions and deletions".into());
    a.log.extend(b.log);
    a
}

pub fn kw_index(plan: &Plan) -> HashMap<Bytes, usize> {
    plan.kws.iter().enumerate().map(|(i, k)| (k.clone(), i)).collect()
}

/// Namespaces worth reading.
pub fn namespaces(plan: &Plan) -> BTreeSet<Ns> {
    let mut s: BTreeSet<Ns> = plan.homes.iter().copied().collect();
    for p in &plan.phases {
        for (_, ops) in &p.clients {
            for op in ops {
                if let OpKind::Compact { to, .. } = &op.kind {
                    s.insert(*to);
                }
                if let NsRef::At(ns) = op.kind.ns() {
                    s.insert(*ns);
                }
            }
        }
    }
    if plan.prop == "F17" || plan.keys.len() * plan.labels.len() <= 4 {
        for key in 0..plan.keys.len() {
            for label in 0..plan.labels.len() {
                s.insert(Ns { key, label });
            }
        }
    }
    s
}

fn read(w: &Rc<World>, base: bool, ns: Ns, kws: Vec<usize>) -> (OpRec, Option<Stuck>) {
    let op = Op {
        id: u32::MAX,
        kind: OpKind::Search { ns: NsRef::At(ns), kws, stop: Stop::Never, suspend: 0 },
    };
    w.run_quiet(base, op)
}

/// Reads back a namespace.
fn observe(
    w: &Rc<World>,
    base: bool,
    ns: Ns,
    broken_ok: &dyn Fn(usize) -> bool,
    viols: &mut Vec<Viol>,
) -> Content {
    let plan = &w.plan;
    let n = plan.kws.len();
    let content = |op: &OpRec, k: usize| -> Option<Set> {
        op.rounds.first().and_then(|r| r.1.get(&plan.kws[k])).cloned()
    };
    let (op, stuck) = read(w, base, ns, (0..n).collect());
    if let Some(s) = stuck {
        viols.push(viol("deadlock", format!("reading back {ns:?} does not end: {s:?}")));
        return vec![None; n];
    }
    if op.outcome.is_ok() {
        viols.extend(check_search(&op, plan));
        for (_, m) in op.rounds.iter().take(1) {
            if let Some(k) = m.keys().find(|k| !plan.kws.contains(k)) {
                viols.push(viol("phantom", format!("reading back {ns:?}: unknown keyword {}", short(k))));
            }
        }
        return (0..n).map(|k| content(&op, k)).collect();
    }
    let mut res = vec![None; n];
    for (k, r) in res.iter_mut().enumerate() {
        let (op, _) = read(w, base, ns, vec![k]);
        if op.outcome.is_ok() || !op.rounds.is_empty() {
            *r = content(&op, k);
        } else if broken_ok(k) {
            *r = Some(Set::new());
        }
        if !op.outcome.is_ok() && !broken_ok(k) {
            let class = if matches!(op.outcome, Outcome::Panicked(_)) { "panic" } else { "unreadable" };
            viols.push(viol(
                class,
                format!("keyword {} cannot be read back in {ns:?}: {}", short(&plan.kws[k]), op.outcome.brief()),
            ));
        }
    }
    res
}

fn outcome_hash(o: &OpRec) -> u64 {
    let mut h = vec![u64::from(o.id), o.invoke, o.end, hash_str(&o.outcome.brief())];
    for (at, m) in &o.rounds {
        h.push(*at);
        for (k, s) in m {
            h.push(hash_bytes(k));
            for v in s {
                h.push(match v {
                    Iv::P(b) => hash_bytes(b) ^ 1,
                    Iv::D(b) => hash_bytes(b),
                });
            }
        }
    }
    hash(&h)
}

pub fn run_world(plan: &Plan, log: bool) -> RunOut {
    let w = World::new(plan, log);
    let mut out = RunOut::default();
    let n = plan.kws.len();
    let index = kw_index(plan);
    let nss = namespaces(plan);
    let deep = plan.profile == "deep";
    let mixed = plan.peers.iter().any(|p| *p);
    let mut pre: State = nss.iter().map(|ns| (*ns, vec![None; n])).collect();
    let mut pre_dump = w.dump();
    let mut stale: BTreeSet<(Ns, usize)> = BTreeSet::new();
    let mut tainted = false;
    let mut rotation_interrupted = false;
    let mut trace = 0u64;

    for (i, phase) in plan.phases.iter().enumerate() {
        let homes = w.homes.borrow().clone();
        let stuck = w.run_phase(i);
        let ops: Vec<OpRec> = {
            let mut inner = w.inner.borrow_mut();
            let ops = inner.ops.iter().filter(|o| o.phase == i).cloned().collect();
            if stuck.is_none() && plan.profile == "twin" {
                let mut lines = vec![];
                for o in &inner.ops {
                    for c in &o.calls {
                        lines.push((c.issue, c, o.id));
                    }
                }
                lines.sort_by_key(|x| x.0);
                for (_, c, id) in lines {
                    out.shape.push(format!(
                        "phase {i} op {id} {:?} {} {:?} {} {}",
                        c.table,
                        c.kind,
                        c.shape,
                        c.act.name(),
                        match &c.result {
                            None => "-".into(),
                            Some(Ok(r)) => r.len().to_string(),
                            Some(Err(_)) => "error".into(),
                        }
                    ));
                }
            }
            if stuck.is_none() {
                inner.end_phase();
            }
            ops
        };
        for o in &ops {
            trace = hash(&[trace, outcome_hash(o)]);
        }
        match &stuck {
            Some(Stuck::Deadlock(v)) => {
                out.viols.push(viol("deadlock", format!("operations {v:?} never complete in phase {i}")));
                break;
            }
            Some(Stuck::Livelock(v)) => {
                out.viols.push(viol("livelock", format!("operations {v:?} never complete in phase {i}")));
                break;
            }
            None => {}
        }
        {
            let mut inner = w.inner.borrow_mut();
            if let Some(o) = inner.capped.first() {
                let o = *o;
                out.viols.push(viol("livelock", format!("op {o} sends requests without end in phase {i}")));
                break;
            }
            for p in std::mem::take(&mut inner.store_panics) {
                out.viols.push(viol("mem_panic", p));
            }
            // The medium is repaired.
            if let Some(rot) = inner.rot.take() {
                if let Some(now) = inner.store.get(rot.table, &rot.token) {
                    if now == rot.bad {
                        inner.store.put(rot.table, rot.token, &rot.good);
                    } else if now != rot.good {
                        out.viols.push(viol(
                            "corrupt_spread",
                            format!("altered value of {:?} {} was overwritten", rot.table, hex(&rot.token)),
                        ));
                    }
                }
            }
            if phase.snapshot {
                inner.stats.hit("snapshot_restored");
                if let Err(e) = inner.store.snapshot() {
                    out.viols.push(viol("snap", e));
                }
            }
            let found = std::mem::take(&mut inner.audit.found);
            for f in found {
                out.viols.push(viol("srv_audit", f));
            }
        }
        if deep {
            for o in &ops {
                if let Outcome::Panicked(m) = &o.outcome {
                    out.viols.push(viol("panic", format!("{} panicked: {m}", o.label())));
                } else if !o.outcome.is_ok() {
                    out.viols.push(viol("err", format!("{} failed: {}", o.label(), o.outcome.brief())));
                }
                out.viols.extend(check_search(o, plan));
                if let (OpKind::Search { .. }, Outcome::Search(r)) = (&o.kind, &o.outcome) {
                    if r.values().next().is_none_or(|s| s.len() != 1) {
                        out.viols.push(viol("graph_missing", "the bottom of the chain is not found".into()));
                    }
                }
            }
            continue;
        }
        let post_dump = w.dump();
        if crate::audit::Audit::wanted(plan) {
            let inner = w.inner.borrow();
            out.viols.extend(check_seeds(plan, &post_dump.0, &|s| inner.audit.is_key(s)));
        }
        let mut post = State::new();
        let base = mixed && i % 2 == 1;
        for ns in &nss {
            let broken_ok = |k: usize| stale.contains(&(*ns, k));
            let c = observe(&w, base, *ns, &broken_ok, &mut out.viols);
            if mixed {
                let d = observe(&w, !base, *ns, &broken_ok, &mut out.viols);
                if d != c {
                    out.viols.push(viol(
                        "mixed_view",
                        format!("the two versions read different contents of {ns:?} after phase {i}"),
                    ));
                }
            }
            post.insert(*ns, c);
        }
        {
            // Reading is not observable by the audit.
            let mut inner = w.inner.borrow_mut();
            for f in std::mem::take(&mut inner.audit.found) {
                out.viols.push(viol("srv_audit", f));
            }
            for (ns, c) in &post {
                trace = hash(&[trace, ns.key as u64, ns.label as u64, hash_str(&format!("{c:?}"))]);
            }
        }
        // Copies left behind by interrupted compactions are only looked at when used.
        let used: BTreeSet<Ns> = ops
            .iter()
            .flat_map(|o| {
                let mut v = vec![o.ns];
                if let OpKind::Compact { to, .. } = &o.kind {
                    v.push(*to);
                }
                v
            })
            .collect();
        for (ns, k) in &stale {
            if !used.contains(ns) {
                let v = post[ns][*k].clone();
                pre.get_mut(ns).unwrap()[*k] = v;
            }
        }
        let ctx = PhaseCtx {
            plan,
            index: &index,
            phase: i,
            ops: &ops,
            pre: &pre,
            post: &post,
            pre_dump: &pre_dump,
            post_dump: &post_dump,
            tainted,
            rotation_interrupted,
            stale: &stale,
        };
        let v = check_phase(&ctx, &mut w.inner.borrow_mut().stats, &mut out.known);
        out.viols.extend(v);

        // Where do the indexes live now?
        for o in &ops {
            let OpKind::Compact { to, .. } = o.kind else { continue };
            if o.ns == to {
                continue;
            }
            if !o.outcome.is_ok() {
                tainted = true;
                if to.key != o.ns.key {
                    rotation_interrupted = true;
                }
            }
        }
        let mut moves: BTreeMap<Ns, (Ns, bool)> = BTreeMap::new();
        for o in &ops {
            let OpKind::Compact { to, .. } = o.kind else { continue };
            if o.ns != to {
                let e = moves.entry(o.ns).or_insert((to, false));
                e.1 |= o.outcome.is_ok();
            }
        }
        let mut torn = false;
        // After a failed compaction among changes, some keywords may be on either side.
        let writers = ops.iter().any(|o| matches!(o.kind, OpKind::Mod { .. }) && (moves.contains_key(&o.ns) || moves.values().any(|m| m.0 == o.ns)));
        if writers {
            tainted = true;
            torn |= moves.values().any(|m| !m.1);
        }
        // There, everything goes on under the new label whatever became of the compaction.
        let moves_on = plan.profile == "rerun";
        if moves_on {
            for (from, (to, _)) in &moves {
                stale.extend((0..n).filter(|k| post[from][*k].is_some() && post[to][*k].is_some()).map(|k| (*from, k)));
            }
        }
        for (h, home) in homes.iter().enumerate() {
            let Some((to, ok)) = moves.get(home) else { continue };
            let full = |s: &Option<Set>| s.as_ref().is_some_and(|s| !s.is_empty());
            let live: Vec<usize> = (0..n).filter(|k| full(&pre[home][*k])).collect();
            let occupied = live.iter().any(|k| full(&pre[to][*k]));
            let in_old = live.iter().all(|k| post[home][*k] == pre[home][*k]);
            let in_new = live.iter().all(|k| full(&post[to][*k]) || !full(&post[home][*k]));
            let new = if *ok || moves_on {
                true
            } else if occupied {
                false
            } else if in_old && in_new {
                phase.prefer_new
            } else {
                !in_old
            };
            // A compaction towards a namespace which holds copies left by an interrupted one moved only
            // some of the keywords: neither namespace is usable as a whole any more (a fresh target
            // is needed, see F14).
            torn |= !moves_on && !in_old && !in_new && (0..n).any(|k| post[home][k].is_some() && post[to][k].is_some());
            let dest = if new { *to } else { *home };
            // Neither is a namespace where copies an interrupted compaction left are outdated.
            torn |= dest == *to && (0..n).any(|k| post[home][k].is_some() && stale.contains(&(dest, k)));
            w.homes.borrow_mut()[h] = dest;
            let other = if new { *home } else { *to };
            for k in 0..n {
                stale.remove(&(dest, k));
                if post[&other][k].is_some() && post[&dest][k].is_some() {
                    stale.insert((other, k));
                }
            }
        }
        pre = post;
        pre_dump = post_dump;
        if torn {
            w.inner.borrow_mut().stats.hit("ended_torn_between_namespaces");
        }
        if torn || out.viols.len() > 8 {
            break;
        }
    }
    if plan.profile == "partial" && out.viols.is_empty() {
        let home = w.homes.borrow()[0];
        out.viols.extend(check_waste(plan, &pre[&home], &pre_dump));
        w.inner.borrow_mut().stats.hit("partial_compactions_checked");
    }
    let mut inner = w.inner.borrow_mut();
    out.stats = inner.stats.clone();
    out.log = inner.log.take().unwrap_or_default();
    out.trace = hash(&[trace, out.stats.interleaving, hash_str(&plan.to_text())]);
    out.nontrivial = out.stats.ops >= 2
        && (out.stats.max_concurrent >= 2
            || !out.stats.fired.is_empty()
            || out.stats.probes.contains_key("compact_ok")
            || plan.profile == "deep"
            || plan.profile == "graph"
            || plan.profile == "interrupt");
    out
}
