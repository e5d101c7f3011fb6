//! Oracles: what histories and tables may look like.

use std::collections::{BTreeMap, BTreeSet, HashMap};

use crate::plan::{Act, Filter, Ns, OpKind, Plan, Stop};
use crate::types::*;
use crate::world::{apply_filter, OpRec, Outcome, Stats};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: &'static str,
    pub detail: String,
}

pub fn viol(class: &'static str, detail: String) -> Viol {
    Viol { class, detail }
}

pub type Set = BTreeSet<Iv>;
/// Content of a namespace: for each keyword, `None` if it is not known to the index.
pub type Content = Vec<Option<Set>>;
pub type State = BTreeMap<Ns, Content>;

pub fn show(s: &Set) -> String {
    let v: Vec<String> = s
        .iter()
        .take(12)
        .map(|x| match x {
            Iv::P(b) => format!("->{}", short(b)),
            Iv::D(b) => short(b),
        })
        .collect();
    format!("{{{}{}}}", v.join(", "), if s.len() > 12 { ", .." } else { "" })
}

pub fn short(b: &[u8]) -> String {
    let h = hex(b);
    if h.len() > 20 {
        format!("{}..({}B)", &h[..16], b.len())
    } else {
        h
    }
}

impl OpRec {
    /// The environment disturbed this operation.
    pub fn env_fault(&self) -> bool {
        self.outcome == Outcome::Crashed
            || self.calls.iter().any(|c| {
                c.corrupted
                    || c.duprow
                    || (c.failed
                        && (c.act != Act::Ok || !matches!(c.result, Some(Err(_)))))
            })
    }

    pub fn label(&self) -> String {
        format!("op {} ({} of client {})", self.id, self.kind.name(), self.client as isize)
    }
}

/// Effect of a modification on one keyword.
#[derive(Clone)]
struct Eff {
    op: u32,
    add: bool,
    set: Set,
    invoke: u64,
    end: u64,
    acked: bool,
}

fn effects(op: &OpRec, n_kws: usize) -> BTreeMap<usize, Eff> {
    let mut m: BTreeMap<usize, Eff> = BTreeMap::new();
    if let OpKind::Mod { add, items, .. } = &op.kind {
        for (iv, kws) in items {
            for k in kws {
                if *k < n_kws {
                    m.entry(*k)
                        .or_insert_with(|| Eff {
                            op: op.id,
                            add: *add,
                            set: Set::new(),
                            invoke: op.invoke,
                            end: op.end,
                            acked: op.outcome.is_ok(),
                        })
                        .set
                        .insert(iv.clone());
                }
            }
        }
    }
    m
}

/// Is there an order of exactly these operations, consistent with real time, that turns `base`
/// into `read`? Exact: operations are placed from the last one; placing an operation that agrees
/// with what is read only removes constraints on the others.
fn explain(base: &Set, ops: &[&Eff], read: &Set) -> bool {
    let mut left: Vec<&Eff> = ops.to_vec();
    let mut decided: Set = Set::new();
    while !left.is_empty() {
        let pos = left.iter().position(|o| {
            let last = !left.iter().any(|p| o.acked && o.end < p.invoke);
            last && o.set.iter().all(|x| decided.contains(x) || read.contains(x) == o.add)
        });
        match pos {
            Some(i) => {
                let o = left.swap_remove(i);
                decided.extend(o.set.iter().cloned());
            }
            None => return false,
        }
    }
    base.iter().all(|x| decided.contains(x) || read.contains(x))
        && read.iter().all(|x| decided.contains(x) || base.contains(x))
}

const MAX_OPT: usize = 10;

/// Explains one read. Returns the operations seen by every explanation, `None` if there is none.
fn explain_read(
    base: &Set,
    mandatory: &[&Eff],
    optional: &[&Eff],
    read: &Set,
    stats: &mut Stats,
) -> Option<BTreeSet<u32>> {
    if optional.len() > MAX_OPT {
        stats.unchecked += 1;
        return Some(BTreeSet::new());
    }
    let mut seen: Option<BTreeSet<u32>> = None;
    for mask in 0..1u32 << optional.len() {
        let mut ops = mandatory.to_vec();
        let mut ids = BTreeSet::new();
        for (i, o) in optional.iter().enumerate() {
            if mask >> i & 1 == 1 {
                ops.push(o);
                ids.insert(o.op);
            }
        }
        if explain(base, &ops, read) {
            seen = Some(match seen {
                None => ids,
                Some(s) => s.intersection(&ids).copied().collect(),
            });
        }
    }
    seen
}

/// Names what is wrong with a read that has no explanation.
fn classify(base: &Set, mandatory: &[&Eff], optional: &[&Eff], read: &Set) -> (&'static str, String) {
    let all: Vec<&Eff> = mandatory.iter().chain(optional).copied().collect();
    for x in read {
        if !base.contains(x) && !all.iter().any(|o| o.add && o.set.contains(x)) {
            return ("phantom", format!("{} was never added", show(&Set::from([x.clone()]))));
        }
    }
    let known: Set = all.iter().flat_map(|o| o.set.iter().cloned()).chain(base.iter().cloned()).collect();
    for x in &known {
        if !read.contains(x)
            && (base.contains(x) || mandatory.iter().any(|o| o.add && o.set.contains(x)))
            && !all.iter().any(|o| !o.add && o.set.contains(x))
        {
            return ("lost", format!("{} is missing", show(&Set::from([x.clone()]))));
        }
    }
    for x in read {
        for d in mandatory.iter().filter(|d| !d.add && d.set.contains(x)) {
            if !all.iter().any(|o| o.add && o.set.contains(x) && !(o.acked && o.end < d.invoke)) {
                return (
                    "resurrect",
                    format!("{} was deleted by op {}", show(&Set::from([x.clone()])), d.op),
                );
            }
        }
    }
    for o in &all {
        let own: Vec<&Iv> = o
            .set
            .iter()
            .filter(|x| all.iter().filter(|p| p.set.contains(*x)).count() == 1)
            .filter(|x| base.contains(*x) != o.add)
            .collect();
        let done = own.iter().filter(|x| read.contains(**x) == o.add).count();
        if done > 0 && done < own.len() {
            return ("partial", format!("only {done} of {} changes of op {} are visible", own.len(), o.op));
        }
    }
    ("order", "no order of whole operations explains it".to_string())
}

/// One observation of a keyword by a search.
struct Read {
    kw: usize,
    set: Set,
    at: u64,
}

/// Everything a search learnt, including that keywords hold nothing.
fn reads(op: &OpRec, index: &HashMap<Bytes, usize>) -> (Vec<Read>, Vec<Viol>) {
    let mut res = vec![];
    let mut bad = vec![];
    let OpKind::Search { kws, .. } = &op.kind else { return (res, bad) };
    let mut wanted: BTreeSet<usize> = kws.iter().copied().collect();
    let mut known: BTreeSet<usize> = BTreeSet::new();
    let mut pointed: BTreeSet<usize> = BTreeSet::new();
    for (at, map) in &op.rounds {
        for (k, set) in map {
            match index.get(k) {
                Some(k) => {
                    known.insert(*k);
                    res.push(Read { kw: *k, set: set.clone(), at: *at });
                    pointed.extend(set.iter().filter_map(|v| match v {
                        Iv::P(p) => index.get(p).copied(),
                        Iv::D(_) => None,
                    }));
                }
                None => {
                    if !map.is_empty() {
                        bad.push(viol(
                            "phantom",
                            format!("{}: results for unknown keyword {}", op.label(), short(k)),
                        ));
                    }
                }
            }
        }
        for k in &wanted {
            if !known.contains(k) {
                res.push(Read { kw: *k, set: Set::new(), at: *at });
            }
        }
        wanted = pointed.iter().copied().filter(|k| !known.contains(k)).collect();
    }
    if let Outcome::Search(_) = op.outcome {
        if op.stop.is_none() {
            for k in wanted {
                res.push(Read { kw: k, set: Set::new(), at: op.end });
            }
        }
    }
    (res, bad)
}

fn reach(g: &HashMap<&Bytes, Set>, from: &Bytes) -> BTreeSet<Bytes> {
    let mut res = BTreeSet::new();
    let mut seen: BTreeSet<&Bytes> = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(k) = todo.pop() {
        if !seen.insert(k) {
            continue;
        }
        if let Some(s) = g.get(k) {
            for v in s {
                match v {
                    Iv::P(p) => {
                        if let Some((k, _)) = g.get_key_value(p) {
                            todo.push(k);
                        }
                    }
                    Iv::D(d) => {
                        res.insert(d.clone());
                    }
                }
            }
        }
    }
    res
}

/// Checks a search against what its own rounds read, and its interruption.
pub fn check_search(op: &OpRec, plan: &Plan) -> Vec<Viol> {
    let mut bad = vec![];
    let OpKind::Search { kws, stop, .. } = &op.kind else { return bad };
    if let Some(s) = op.stop {
        if let Some(c) = op.calls.iter().find(|c| c.issue > s) {
            bad.push(viol(
                "interrupt",
                format!("{} sent a {} request after being interrupted", op.label(), c.kind),
            ));
        }
        if op.rounds.iter().any(|(at, _)| *at > s) {
            bad.push(viol("interrupt", format!("{}: callback called after it stopped the search", op.label())));
        }
        if matches!(stop, Stop::ErrAt(_)) {
            match &op.outcome {
                Outcome::Err(e) if e.msg.contains("stop requested by callback") => {}
                Outcome::Crashed | Outcome::Panicked(_) | Outcome::Pending => {}
                o => bad.push(viol(
                    "interrupt",
                    format!("{}: the callback failed but the search returned {}", op.label(), o.brief()),
                )),
            }
        }
    }
    let Outcome::Search(res) = &op.outcome else { return bad };
    if let Some(last) = op.calls.iter().map(|c| c.issue).max() {
        if op.rounds.iter().all(|(at, _)| *at < last) {
            bad.push(viol("interrupt", format!("{}: the callback was not given the results of the last round", op.label())));
        }
    }
    let keys: BTreeSet<&Bytes> = res.keys().collect();
    let asked: BTreeSet<&Bytes> = kws.iter().map(|k| &plan.kws[*k]).collect();
    if keys != asked {
        bad.push(viol(
            "keys",
            format!("{}: {} keywords searched, {} in the result", op.label(), asked.len(), keys.len()),
        ));
    }
    let mut upper: HashMap<&Bytes, Set> = HashMap::new();
    let mut lower: HashMap<&Bytes, Set> = HashMap::new();
    for (_, m) in &op.rounds {
        for (k, s) in m {
            upper.entry(k).or_default().extend(s.iter().cloned());
            lower
                .entry(k)
                .and_modify(|o| *o = o.intersection(s).cloned().collect())
                .or_insert_with(|| s.clone());
        }
    }
    let multi = upper.iter().any(|(k, s)| s.len() != lower[*k].len());
    let big = asked.len() > 200;
    for k in &asked {
        let Some(got) = res.get(*k) else { continue };
        if big && upper.get(*k).is_none_or(|s| !s.iter().any(|v| matches!(v, Iv::P(_)))) {
            // Cheap case of the closure.
        }
        let up = reach(&upper, k);
        let low = if multi { reach(&lower, k) } else { up.clone() };
        if let Some(x) = got.difference(&up).next() {
            bad.push(viol(
                "graph_extra",
                format!("{}: {} returned for {} is not reachable from it", op.label(), short(x), short(k)),
            ));
        }
        if let Some(x) = low.difference(got).next() {
            bad.push(viol(
                "graph_missing",
                format!("{}: {} is reachable from {} but not returned", op.label(), short(x), short(k)),
            ));
        }
        if bad.len() > 4 {
            break;
        }
    }
    bad
}

pub struct PhaseCtx<'a> {
    pub plan: &'a Plan,
    pub index: &'a HashMap<Bytes, usize>,
    pub phase: usize,
    pub ops: &'a [OpRec],
    pub pre: &'a State,
    pub post: &'a State,
    pub pre_dump: &'a (Dump, Dump),
    pub post_dump: &'a (Dump, Dump),
    /// A compaction failed or crashed earlier in this run.
    pub tainted: bool,
    /// A compaction changing the key failed or crashed earlier in this run.
    pub rotation_interrupted: bool,
    /// Copies an interrupted compaction left in the namespace which is not used any more. Their
    /// chains may be shared with the copy in use.
    pub stale: &'a BTreeSet<(Ns, usize)>,
}

pub fn check_phase(c: &PhaseCtx, stats: &mut Stats, known: &mut Vec<String>) -> Vec<Viol> {
    let mut bad = vec![];
    let comps: Vec<&OpRec> =
        c.ops.iter().filter(|o| matches!(o.kind, OpKind::Compact { .. })).collect();
    let mut under: BTreeSet<Ns> = BTreeSet::new();
    for o in &comps {
        if let OpKind::Compact { to, .. } = &o.kind {
            under.insert(o.ns);
            under.insert(*to);
        }
    }
    let from: BTreeSet<Ns> = comps.iter().map(|o| o.ns).collect();
    let writers = c.ops.iter().any(|o| under.contains(&o.ns) && matches!(o.kind, OpKind::Mod { .. }));
    for op in c.ops {
        if let Outcome::Panicked(m) = &op.outcome {
            bad.push(viol("panic", format!("{} panicked: {m}", op.label())));
        }
        bad.extend(check_search(op, c.plan));
        if op.calls.iter().any(|x| x.corrupted && !x.failed) && op.outcome.is_ok() {
            bad.push(viol(
                "corrupt_ok",
                format!("{} was given an altered value and returned {}", op.label(), op.outcome.brief()),
            ));
        }
        // Errors without a cause.
        if let Outcome::Err(e) = &op.outcome {
            let excused = op.env_fault()
                || (matches!(op.kind, OpKind::Search { .. }) && op.stop.is_some())
                || matches!(op.kind, OpKind::Compact { .. });
            // A change under the old key and label may be overtaken by the compaction (K2).
            if !excused && overtaken(c, op, &under, &from) {
                stats.hit("change_failed_near_overtaken_one");
                known.push("K2".into());
            } else if !excused {
                let class = if under.contains(&op.ns) { "c_race_err" } else { "err" };
                bad.push(viol(class, format!("{} failed on healthy storage: [{}] {}", op.label(), e.kind, e.msg)));
            }
        }
        bad.extend(check_work(c, op, &under));
        if c.plan.prop == "F29" {
            bad.extend(check_append(c, op, stats));
        }
    }
    if c.plan.prop == "F29" && comps.is_empty() {
        bad.extend(check_kept(c, stats));
    }
    for ns in c.pre.keys() {
        if !under.contains(ns) {
            bad.extend(check_mods(c, *ns, stats));
        }
    }
    if !comps.is_empty() {
        if writers {
            bad.extend(check_writers(c, &comps, stats, known));
        } else {
            bad.extend(check_compaction(c, &comps, &under, stats, known));
        }
    }
    bad
}

/// Is this a modification that fails because a keyword of it was changed under the old key and label
/// while a compaction was running?
fn overtaken(c: &PhaseCtx, op: &OpRec, under: &BTreeSet<Ns>, from: &BTreeSet<Ns>) -> bool {
    if !under.contains(&op.ns) || !matches!(op.kind, OpKind::Mod { .. }) {
        return false;
    }
    let n = c.plan.kws.len();
    let own = effects(op, n);
    c.ops.iter().any(|o| {
        from.contains(&o.ns) && overlaps_compaction(c, o) && effects(o, n).keys().any(|k| own.contains_key(k))
    })
}

fn overlaps_compaction(c: &PhaseCtx, o: &OpRec) -> bool {
    c.ops.iter().any(|x| {
        matches!(x.kind, OpKind::Compact { .. }) && x.ns == o.ns && o.invoke < settled(x) && o.end > x.invoke
    })
}

/// When a compaction is over. An interrupted one may leave copies sharing chains.
fn settled(x: &OpRec) -> u64 {
    if x.outcome.is_ok() {
        x.end
    } else {
        u64::MAX
    }
}

/// A compaction during which the index is modified.
fn check_writers(
    c: &PhaseCtx,
    comps: &[&OpRec],
    stats: &mut Stats,
    known: &mut Vec<String>,
) -> Vec<Viol> {
    let mut bad = vec![];
    let [o] = comps else {
        stats.unchecked += 1;
        return bad;
    };
    let OpKind::Compact { to, rate, filter, .. } = &o.kind else { return bad };
    let (from, to) = (o.ns, *to);
    if from == to {
        stats.unchecked += 1;
        return bad;
    }
    let n = c.plan.kws.len();
    let get = |s: &State, ns: Ns, k: usize| -> Set { s[&ns][k].clone().unwrap_or_default() };
    let effs = |ns: Ns, k: usize| -> Vec<Eff> {
        c.ops.iter().filter(|x| x.ns == ns).filter_map(|x| effects(x, n).remove(&k)).collect()
    };
    let mods_to = c.ops.iter().any(|x| x.ns == to && matches!(x.kind, OpKind::Mod { .. }));
    let mods_from = c.ops.iter().any(|x| x.ns == from && matches!(x.kind, OpKind::Mod { .. }));
    let collision = (0..n).any(|k| c.pre[&from][k].is_some() && c.pre[&to][k].is_some());
    let ok = o.outcome.is_ok();
    let dumped =
        o.calls.iter().filter(|x| x.kind == "dump").flat_map(|x| &x.applied).copied().min().unwrap_or(0);
    stats.hit(if ok { "compact_among_writers_ok" } else { "compact_among_writers_failed" });

    if let Outcome::Err(e) = &o.outcome {
        if !(o.env_fault() || filter.failed(o.filters.len()) || collision || mods_to) {
            bad.push(viol(
                if c.tainted { "c_wedge" } else { "c_err" },
                format!("{} failed on healthy storage: [{}] {}", o.label(), e.kind, e.msg),
            ));
        }
    }
    if ok && filter.failed(o.filters.len()) {
        bad.push(viol("c_filter", format!("{} succeeded although its filter failed", o.label())));
    }
    let given: BTreeSet<Bytes> = o.filters.iter().flat_map(|f| f.1.iter().cloned()).collect();
    let mut allowed: BTreeSet<Bytes> = (0..n).flat_map(|k| data_of(&get(c.pre, from, k))).collect();
    for k in 0..n {
        allowed.extend(effs(from, k).iter().flat_map(|e| data_of(&e.set)));
    }
    if let Some(x) = given.difference(&allowed).next() {
        bad.push(viol("c_filter_input", format!("{}: the filter was given {}, which is not live", o.label(), short(x))));
    }
    if *rate >= 1.0 && ok && !mods_from {
        if let Some(x) = allowed.difference(&given).next() {
            bad.push(viol("c_filter_input", format!("{}: the filter was not given live data {}", o.label(), short(x))));
        }
    }

    // What the compaction may move for a keyword nobody changes under the old namespace.
    let cands = |k: usize| -> Vec<Set> {
        let a = get(c.pre, from, k);
        let whole = data_of(&a).is_subset(&given);
        let f = if whole { filtered(filter, &a, &data_of(&a)) } else { None };
        match f {
            Some(f) if *rate >= 1.0 => vec![f],
            Some(f) => vec![a, f],
            None => vec![a],
        }
    };
    let possible = |k: usize| -> Set {
        let mut p = get(c.pre, from, k);
        p.extend(get(c.pre, to, k));
        for e in effs(from, k).iter().chain(&effs(to, k)) {
            if e.add {
                p.extend(e.set.iter().cloned());
            }
        }
        p
    };

    for k in 0..n {
        let (a, b) = (get(c.pre, from, k), get(c.pre, to, k));
        let (a2, b2) = (get(c.post, from, k), get(c.post, to, k));
        let (ef, et) = (effs(from, k), effs(to, k));
        let name = short(&c.plan.kws[k]);
        let say = |class, why: &str| {
            viol(
                class,
                format!(
                    "after a compaction ({}) among changes in phase {}: keyword {name} {why}; before: old {} new {}; after: old {} new {}",
                    o.outcome.brief(),
                    c.phase,
                    show(&a),
                    show(&b),
                    show(&a2),
                    show(&b2)
                ),
            )
        };
        if let Some(x) = a2.union(&b2).find(|x| !possible(k).contains(*x)) {
            bad.push(say("phantom", &format!("holds {}, which was never added", show(&Set::from([x.clone()])))));
            continue;
        }
        let (m, opt): (Vec<&Eff>, Vec<&Eff>) = et.iter().partition(|e| e.acked);
        if ef.is_empty() {
            let cs = cands(k);
            let from_cand = |stats: &mut Stats, empty: bool| {
                cs.iter().any(|x| x.is_empty() == empty && explain_read(x, &m, &opt, &b2, stats).is_some())
            };
            // Compacted entries only replace missing ones.
            let moved = b.is_empty() && from_cand(stats, false) || explain_read(&b, &m, &opt, &b2, stats).is_some() && cs.iter().any(BTreeSet::is_empty);
            let untouched = explain_read(&b, &m, &opt, &b2, stats).is_some();
            let good = if ok {
                a2.is_empty() && (moved || a.is_empty() && untouched)
            } else {
                a2 == a && (untouched || moved) || a2.is_empty() && moved
            };
            if ok && !a2.is_empty() {
                bad.push(say("c_old", "is still found under the old key and label"));
            } else if !good {
                bad.push(say("c_lost", "lost something or mixes states"));
            }
            if !et.is_empty() {
                stats.hit("changed_under_new_namespace_meanwhile");
            }
        } else {
            stats.hit("changed_under_old_namespace_meanwhile");
            let all: Vec<&Eff> = ef.iter().chain(&et).collect();
            // Entries created after the compaction listed the table do not concern it.
            let listed = c.pre[&from][k].is_some()
                || c.ops.iter().any(|q| {
                    ef.iter().any(|e| e.op == q.id)
                        && q.calls.iter().any(|x| {
                            ["upsert", "insert"].contains(&x.kind) && x.applied.iter().any(|t| *t < dumped)
                        })
                });
            if !listed {
                stats.hit("new_under_old_namespace_meanwhile");
            }
            for x in &possible(k) {
                let touching: Vec<&&Eff> = all.iter().filter(|e| e.set.contains(x)).collect();
                let overtaken = listed && touching.iter().any(|e| {
                    ef.iter().any(|f| f.op == e.op)
                        && c.ops.iter().any(|q| q.id == e.op && overlaps_compaction(c, q))
                });
                let found = a2.contains(x) || b2.contains(x);
                let before = a.contains(x) || b.contains(x);
                let deleted = touching.iter().any(|e| !e.add);
                let added = touching.iter().any(|e| e.add);
                let acked_add = touching.iter().any(|e| e.add && e.acked);
                if !deleted && !found && (before || acked_add) {
                    // What was there before can only be dropped by the filter.
                    let dropped = match x {
                        Iv::D(d) => given.contains(d) && filtered(filter, &Set::from([x.clone()]), &BTreeSet::from([d.clone()])).is_some_and(|s| s.is_empty()),
                        Iv::P(_) => false,
                    };
                    if dropped {
                        continue;
                    }
                    if overtaken && !before {
                        known.push("K2".into());
                        stats.hit("acknowledged_change_overtaken");
                    } else {
                        bad.push(say("c_lost", &format!("lost {}", show(&Set::from([x.clone()])))));
                    }
                }
                // Deletions under the old namespace started after the compaction do not concern what it moved.
                let del_from = ef.iter().any(|e| !e.add && e.acked && e.set.contains(x) && e.invoke < settled(o));
                let del_to = ok && et.iter().any(|e| !e.add && e.acked && e.set.contains(x)) && b2.contains(x);
                if !added && found && (del_from || del_to) {
                    if overtaken {
                        known.push("K2".into());
                        stats.hit("acknowledged_change_overtaken");
                    } else {
                        bad.push(say("resurrect", &format!("holds {} again", show(&Set::from([x.clone()])))));
                    }
                }
            }
        }
        if bad.len() > 6 {
            return bad;
        }
    }

    for s in c.ops.iter().filter(|s| (s.ns == from || s.ns == to) && matches!(s.kind, OpKind::Search { .. })) {
        let (reads, v) = reads(s, c.index);
        bad.extend(v);
        for r in reads {
            let (a, b) = (get(c.pre, from, r.kw), get(c.pre, to, r.kw));
            let (ef, et) = (effs(from, r.kw), effs(to, r.kw));
            let fine = if !ef.is_empty() {
                r.set.is_subset(&possible(r.kw))
            } else if s.ns == from {
                r.set == a || r.set.is_empty()
            } else {
                let (m, opt): (Vec<&Eff>, Vec<&Eff>) =
                    et.iter().filter(|e| e.invoke < r.at).partition(|e| e.acked && e.end < s.invoke);
                let mut bases = cands(r.kw);
                bases.push(b);
                bases.iter().any(|x| explain_read(x, &m, &opt, &r.set, stats).is_some())
            };
            stats.hit("search_during_compaction");
            if !fine {
                bad.push(viol(
                    "c_race_read",
                    format!(
                        "{} read {} for keyword {} during a compaction; before: old {}",
                        s.label(),
                        show(&r.set),
                        short(&c.plan.kws[r.kw]),
                        show(&a)
                    ),
                ));
            }
        }
        if bad.len() > 6 {
            break;
        }
    }
    bad
}

/// Searches only read; changes only add lines and replace the entries of their keywords.
fn check_append(c: &PhaseCtx, op: &OpRec, stats: &mut Stats) -> Vec<Viol> {
    let allowed: &[(Table, &str)] = match &op.kind {
        OpKind::Search { .. } => &[(Table::Et, "fetch"), (Table::Ct, "fetch"), (Table::Et, "dump"), (Table::Ct, "dump")],
        OpKind::Mod { .. } => &[
            (Table::Et, "fetch"), (Table::Ct, "fetch"), (Table::Et, "dump"), (Table::Ct, "dump"),
            (Table::Et, "upsert"), (Table::Ct, "insert"),
        ],
        OpKind::Compact { .. } | OpKind::Raw { .. } => return vec![],
    };
    for x in &op.calls {
        if !allowed.iter().any(|(t, k)| *t == x.table && *k == x.kind) {
            return vec![viol("append", format!("{} sent a request to {} to the {:?} table", op.label(), x.kind, x.table))];
        }
    }
    if let OpKind::Mod { items, .. } = &op.kind {
        let own = own_tokens(c, op, items);
        if op.calls.iter().any(|x| x.kind == "upsert" && x.tokens.iter().any(|t| !own.contains(t))) {
            return vec![viol("append", format!("{} wrote entries of keywords it does not name", op.label()))];
        }
        stats.hit("append_only_change");
    } else {
        stats.hit("read_only_search");
    }
    vec![]
}

/// Tokens of the entries of the keywords a change names.
fn own_tokens(c: &PhaseCtx, op: &OpRec, items: &[(Iv, Vec<usize>)]) -> BTreeSet<Tok> {
    let (key, label) = (&c.plan.keys[op.ns.key], &c.plan.labels[op.ns.label]);
    let kws: BTreeSet<usize> = items.iter().flat_map(|(_, k)| k.iter().copied()).collect();
    kws.iter().map(|k| crate::audit::entry_token(key, label, &crate::audit::keyword_hash(&c.plan.kws[*k]))).collect()
}

/// Without a compaction, lines stay for ever and only entries of changed keywords are replaced.
fn check_kept(c: &PhaseCtx, stats: &mut Stats) -> Vec<Viol> {
    let mut own = BTreeSet::new();
    for o in c.ops {
        if let OpKind::Mod { items, .. } = &o.kind {
            own.extend(own_tokens(c, o, items));
        }
    }
    for (t, v) in &c.pre_dump.1 {
        if c.post_dump.1.get(t) != Some(v) {
            return vec![viol("append", "a chain line was removed or replaced without a compaction".into())];
        }
    }
    for (t, v) in &c.pre_dump.0 {
        match c.post_dump.0.get(t) {
            None => return vec![viol("append", "an entry was removed without a compaction".into())],
            Some(w) if w != v && !own.contains(t) => {
                return vec![viol("append", "an entry of a keyword nobody changed was replaced".into())]
            }
            _ => {}
        }
    }
    for t in c.post_dump.0.keys() {
        if !c.pre_dump.0.contains_key(t) && !own.contains(t) {
            return vec![viol("append", "an entry appeared for a keyword nobody changed".into())];
        }
    }
    stats.hit("rows_kept_checked");
    vec![]
}

/// Requests must be bounded, and retries justified.
fn check_work(c: &PhaseCtx, op: &OpRec, under: &BTreeSet<Ns>) -> Vec<Viol> {
    let mut bad = vec![];
    if under.contains(&op.ns) {
        return bad;
    }
    match &op.kind {
        OpKind::Mod { .. } => {
            let mut rejections = 0;
            let mut rejected: Option<BTreeSet<Tok>> = None;
            let mut per_token: BTreeMap<Tok, u64> = BTreeMap::new();
            for x in &op.calls {
                if x.kind == "upsert" {
                    if let Some(r) = &rejected {
                        let extra = x.tokens.iter().filter(|t| !r.contains(*t)).count();
                        if extra > 0 {
                            bad.push(viol(
                                "work",
                                format!("{} retried {extra} keywords that had not been rejected", op.label()),
                            ));
                        }
                    }
                    if let Some(Ok(r)) = &x.result {
                        if !r.is_empty() {
                            rejections += 1;
                        }
                        for t in r {
                            *per_token.entry(*t).or_default() += 1;
                        }
                        rejected = Some(r.iter().copied().collect());
                    }
                }
            }
            if op.calls.len() > 6 + 2 * rejections {
                bad.push(viol(
                    "work",
                    format!("{} sent {} requests for {rejections} rejections", op.label(), op.calls.len()),
                ));
            }
            if op.env_fault() || op.calls.iter().any(|x| x.act != Act::Ok) {
                return bad;
            }
            // Each rejection is due to a change of this keyword by another operation.
            for (t, n) in per_token {
                let changes = c
                    .ops
                    .iter()
                    .filter(|o| o.id != op.id)
                    .flat_map(|o| &o.calls)
                    .filter(|x| x.table == Table::Et && x.kind == "upsert" && x.tokens.contains(&t))
                    .filter(|x| x.applied.iter().any(|s| *s > op.invoke && *s < op.end))
                    .count() as u64;
                if n > changes {
                    bad.push(viol(
                        "work",
                        format!("{} was rejected {n} times on a keyword others changed {changes} times", op.label()),
                    ));
                    break;
                }
            }
        }
        OpKind::Search { kws, .. } => {
            let mut tags: BTreeSet<&Bytes> = kws.iter().map(|k| &c.plan.kws[*k]).collect();
            for (_, m) in &op.rounds {
                for s in m.values() {
                    tags.extend(s.iter().filter_map(|v| match v {
                        Iv::P(p) => Some(p),
                        Iv::D(_) => None,
                    }));
                }
            }
            // Each keyword is read at most twice (again when one of the same round points to it),
            // each time with two requests.
            if op.calls.len() > 4 * (tags.len() + 1) {
                bad.push(viol(
                    "work",
                    format!("{} sent {} requests to visit {} keywords", op.label(), op.calls.len(), tags.len()),
                ));
            }
        }
        OpKind::Compact { .. } | OpKind::Raw { .. } => {}
    }
    bad
}

/// Histories of modifications and searches of one namespace.
fn check_mods(c: &PhaseCtx, ns: Ns, stats: &mut Stats) -> Vec<Viol> {
    let mut bad = vec![];
    let pre = &c.pre[&ns];
    let post = &c.post[&ns];
    let n_kws = c.plan.kws.len();
    let empty = Set::new();
    let base = |k: usize| pre[k].as_ref().unwrap_or(&empty);

    let mut by_kw: BTreeMap<usize, Vec<Eff>> = BTreeMap::new();
    for op in c.ops.iter().filter(|o| o.ns == ns) {
        for (k, e) in effects(op, n_kws) {
            by_kw.entry(k).or_default().push(e);
        }
    }
    let none = vec![];

    // Searches, in the order of their start.
    let mut searches: Vec<&OpRec> = c
        .ops
        .iter()
        .filter(|o| o.ns == ns && matches!(o.kind, OpKind::Search { .. }))
        .collect();
    searches.sort_by_key(|o| o.invoke);
    // (end of the search, operation it saw)
    let mut seen: Vec<(u64, u32)> = vec![];
    let mut memo: HashMap<(usize, Vec<u32>, Vec<u32>, Set), Option<BTreeSet<u32>>> = HashMap::new();
    for s in &searches {
        let (reads, v) = reads(s, c.index);
        bad.extend(v);
        for r in reads {
            let effs = by_kw.get(&r.kw).unwrap_or(&none);
            let is_seen =
                |o: &Eff| seen.iter().any(|(end, id)| *end < s.invoke && *id == o.op);
            let (m, o): (Vec<&Eff>, Vec<&Eff>) = effs
                .iter()
                .filter(|e| e.invoke < r.at)
                .partition(|e| (e.acked && e.end < s.invoke) || is_seen(e));
            if !o.is_empty() {
                stats.hit("search_concurrent_with_change");
            }
            let key = (
                r.kw,
                m.iter().map(|e| e.op).collect::<Vec<_>>(),
                o.iter().map(|e| e.op).collect::<Vec<_>>(),
                r.set.clone(),
            );
            let res = match memo.get(&key) {
                Some(x) => x.clone(),
                None => {
                    let x = explain_read(base(r.kw), &m, &o, &r.set, stats);
                    memo.insert(key, x.clone());
                    x
                }
            };
            match res {
                Some(ids) => {
                    if !ids.is_empty() {
                        stats.hit("search_saw_concurrent_change");
                    }
                    if s.outcome.is_ok() {
                        seen.extend(ids.into_iter().map(|id| (s.end, id)));
                    }
                }
                None => {
                    let (m2, o2): (Vec<&Eff>, Vec<&Eff>) = effs
                        .iter()
                        .filter(|e| e.invoke < r.at)
                        .partition(|e| e.acked && e.end < s.invoke);
                    let (mut class, why) = classify(base(r.kw), &m2, &o2, &r.set);
                    if m2.len() != m.len() && explain_read(base(r.kw), &m2, &o2, &r.set, stats).is_some() {
                        class = "regress";
                    }
                    bad.push(viol(
                        class,
                        format!(
                            "{} read {} for keyword {}: {why}",
                            s.label(),
                            show(&r.set),
                            short(&c.plan.kws[r.kw])
                        ),
                    ));
                }
            }
            if bad.len() > 6 {
                return bad;
            }
        }
    }

    // Everything read back at the end. Failed operations count wholly or not at all, for all of
    // their keywords.
    let seen: BTreeSet<u32> = seen.into_iter().map(|x| x.1).collect();
    let mut optional: BTreeSet<u32> = BTreeSet::new();
    for effs in by_kw.values() {
        optional.extend(effs.iter().filter(|e| !e.acked && !seen.contains(&e.op)).map(|e| e.op));
    }
    let mut single_ok = true;
    for k in 0..n_kws {
        let read = post[k].as_ref().unwrap_or(&empty);
        let effs = by_kw.get(&k).unwrap_or(&none);
        if effs.is_empty() {
            if read != base(k) {
                let x = base(k).difference(read).next();
                let (class, x) = match x {
                    Some(x) => ("lost", x),
                    None => ("phantom", read.difference(base(k)).next().unwrap()),
                };
                bad.push(viol(
                    class,
                    format!(
                        "after phase {}: keyword {} was not touched but {} {}",
                        c.phase,
                        short(&c.plan.kws[k]),
                        show(&Set::from([x.clone()])),
                        if class == "lost" { "is missing" } else { "appeared" }
                    ),
                ));
                single_ok = false;
            }
            continue;
        }
        let (m, o): (Vec<&Eff>, Vec<&Eff>) =
            effs.iter().partition(|e| e.acked || seen.contains(&e.op));
        if !o.is_empty() {
            stats.hit("failed_change_settled");
        }
        if explain_read(base(k), &m, &o, read, stats).is_none() {
            single_ok = false;
            let (class, why) = classify(base(k), &m, &o, read);
            bad.push(viol(
                class,
                format!(
                    "after phase {}: keyword {} holds {}: {why}",
                    c.phase,
                    short(&c.plan.kws[k]),
                    show(read)
                ),
            ));
        }
        if bad.len() > 6 {
            return bad;
        }
    }
    let multi: BTreeSet<u32> = optional
        .iter()
        .copied()
        .filter(|id| by_kw.values().filter(|e| e.iter().any(|x| x.op == *id)).count() > 1)
        .collect();
    if single_ok && !multi.is_empty() {
        let opt: Vec<u32> = optional.iter().copied().collect();
        if opt.len() <= MAX_OPT {
            stats.hit("failed_change_on_several_keywords");
            let ok = (0..1u32 << opt.len()).any(|mask| {
                by_kw.iter().all(|(k, effs)| {
                    let ops: Vec<&Eff> = effs
                        .iter()
                        .filter(|e| {
                            e.acked
                                || seen.contains(&e.op)
                                || opt.iter().position(|o| *o == e.op).is_some_and(|i| mask >> i & 1 == 1)
                        })
                        .collect();
                    explain(base(*k), &ops, post[*k].as_ref().unwrap_or(&empty))
                })
            });
            if !ok {
                bad.push(viol(
                    "partial",
                    format!("after phase {}: failed operations {multi:?} changed only some of their keywords", c.phase),
                ));
            }
        } else {
            stats.unchecked += 1;
        }
    }

    bad.extend(check_new(c, ns, &by_kw));
    bad
}

/// Keywords reported as new.
fn check_new(c: &PhaseCtx, ns: Ns, by_kw: &BTreeMap<usize, Vec<Eff>>) -> Vec<Viol> {
    let mut bad = vec![];
    let ops: HashMap<u32, &OpRec> = c.ops.iter().map(|o| (o.id, o)).collect();
    for op in c.ops.iter().filter(|o| o.ns == ns) {
        if let Outcome::Mod(new) = &op.outcome {
            let own = effects(op, c.plan.kws.len());
            for k in new {
                if !c.index.get(k).is_some_and(|k| own.contains_key(k)) {
                    bad.push(viol("newkw", format!("{} reported unrelated keyword {}", op.label(), short(k))));
                }
            }
        }
    }
    for (k, effs) in by_kw {
        let name = short(&c.plan.kws[*k]);
        let reporters: Vec<&Eff> = effs
            .iter()
            .filter(|e| match &ops[&e.op].outcome {
                Outcome::Mod(new) => new.contains(&c.plan.kws[*k]),
                _ => false,
            })
            .collect();
        let known = c.pre[&ns][*k].is_some();
        if known {
            if let Some(r) = reporters.first() {
                bad.push(viol("newkw", format!("op {} reported known keyword {name} as new", r.op)));
            }
            continue;
        }
        if reporters.len() > 1 {
            bad.push(viol(
                "newkw",
                format!("ops {:?} all reported keyword {name} as new", reporters.iter().map(|r| r.op).collect::<Vec<_>>()),
            ));
            continue;
        }
        // Failed operations may have introduced the keyword, if a write of theirs was executed.
        let maybe: Vec<&Eff> = effs
            .iter()
            .filter(|e| {
                e.acked
                    || ops[&e.op]
                        .calls
                        .iter()
                        .any(|x| x.table == Table::Et && matches!(x.kind, "upsert" | "insert") && !x.applied.is_empty())
            })
            .collect();
        if let Some(r) = reporters.first() {
            if let Some(e) = effs.iter().find(|e| e.acked && e.end < r.invoke) {
                bad.push(viol(
                    "newkw",
                    format!("op {} reported keyword {name} as new, introduced before it by op {}", r.op, e.op),
                ));
            }
        } else if !maybe.is_empty() && maybe.iter().all(|e| e.acked) {
            bad.push(viol(
                "newkw",
                format!("no operation reported new keyword {name} (touched by {:?})", maybe.iter().map(|e| e.op).collect::<Vec<_>>()),
            ));
        }
    }
    bad
}

/// Number of chain lines needed by a set of values, with minimal padding.
pub fn lines(set: &Set) -> usize {
    let blocks: usize = set
        .iter()
        .map(|v| match v {
            Iv::P(b) | Iv::D(b) => (b.len() + 1) / 16 + 1,
        })
        .sum();
    blocks.div_ceil(5)
}

fn filtered(f: &Filter, set: &Set, input: &BTreeSet<Bytes>) -> Option<Set> {
    let kept = apply_filter(f, input.clone(), 0)?;
    Some(
        set.iter()
            .filter(|v| match v {
                Iv::P(_) => true,
                Iv::D(d) => kept.contains(d),
            })
            .cloned()
            .collect(),
    )
}

fn data_of(set: &Set) -> BTreeSet<Bytes> {
    set.iter()
        .filter_map(|v| match v {
            Iv::D(d) => Some(d.clone()),
            Iv::P(_) => None,
        })
        .collect()
}

fn check_compaction(
    c: &PhaseCtx,
    comps: &[&OpRec],
    under: &BTreeSet<Ns>,
    stats: &mut Stats,
    known: &mut Vec<String>,
) -> Vec<Viol> {
    let mut bad = vec![];
    let n = c.plan.kws.len();
    let get = |s: &State, ns: Ns, k: usize| -> Set { s[&ns][k].clone().unwrap_or_default() };
    let one_batch = c.plan.batch == 0;

    let OpKind::Compact { to, .. } = comps[0].kind else { return bad };
    let from = comps[0].ns;
    if comps.iter().any(|o| o.ns != from || !matches!(&o.kind, OpKind::Compact { to: t, .. } if *t == to)) {
        stats.unchecked += 1;
        return bad;
    }

    // Refusal.
    if from == to {
        for o in comps {
            if o.outcome.is_ok() {
                bad.push(viol("c_refuse", format!("{} changes neither key nor label and was accepted", o.label())));
            }
            if o.calls.iter().any(|x| x.kind != "dump" && x.kind != "fetch") {
                bad.push(viol("c_refuse", format!("{} changes neither key nor label but wrote to storage", o.label())));
            }
        }
        if c.pre_dump != c.post_dump {
            bad.push(viol("c_refuse", "a refused compaction changed the tables".into()));
        }
        stats.hit("compact_same_namespace");
        return bad;
    }

    let race = comps.len() > 1;
    let live: Vec<usize> = (0..n).filter(|k| !get(c.pre, from, *k).is_empty()).collect();
    let collision = (0..n).any(|k| c.pre[&from][k].is_some() && c.pre[&to][k].is_some());
    let foreign = c
        .pre
        .iter()
        .any(|(ns, content)| ns.key != from.key && content.iter().any(Option::is_some));
    if collision {
        stats.hit("compact_into_occupied_namespace");
    }
    if race {
        stats.hit("compact_race");
    }

    for o in comps {
        let OpKind::Compact { rate, filter, .. } = &o.kind else { unreachable!() };
        match &o.outcome {
            Outcome::Compact => {
                stats.hit("compact_ok");
                if filter.failed(o.filters.len()) {
                    bad.push(viol("c_filter", format!("{} succeeded although its filter failed", o.label())));
                }
            }
            Outcome::Err(e) => {
                stats.hit("compact_err");
                let filter_failed = filter.failed(o.filters.len());
                if filter_failed && !e.msg.contains("filter failed") && !o.env_fault() {
                    bad.push(viol("c_filter", format!("{}: error of the filter lost: {}", o.label(), e.msg)));
                }
                if !(o.env_fault() || filter_failed || collision || race) {
                    if foreign && c.rotation_interrupted && e.kind == "cryptocore" {
                        known.push("K1".into());
                        stats.hit("known_K1");
                    } else if foreign {
                        stats.hit("compact_with_foreign_key");
                    } else {
                        bad.push(viol(
                            if c.tainted { "c_wedge" } else { "c_err" },
                            format!("{} failed on healthy storage: [{}] {}", o.label(), e.kind, e.msg),
                        ));
                    }
                }
            }
            Outcome::Crashed => stats.hit("compact_crash"),
            _ => {}
        }
        // What the filter was given.
        let all_live: BTreeSet<Bytes> =
            live.iter().flat_map(|k| data_of(&get(c.pre, from, *k))).collect();
        let given: BTreeSet<Bytes> = o.filters.iter().flat_map(|f| f.1.iter().cloned()).collect();
        if let Some(x) = given.difference(&all_live).next() {
            bad.push(viol("c_filter_input", format!("{}: the filter was given {}, which is not live", o.label(), short(x))));
        }
        if *rate >= 1.0 && o.outcome.is_ok() && !race {
            if let Some(x) = all_live.difference(&given).next() {
                bad.push(viol("c_filter_input", format!("{}: the filter was not given live data {}", o.label(), short(x))));
            }
        }
    }

    // What may be found in the new namespace for each keyword.
    let all_ok = comps.iter().all(|o| o.outcome.is_ok());
    let any_ok = comps.iter().any(|o| o.outcome.is_ok());
    let clean = comps.iter().all(|o| !o.env_fault());
    let cands = |k: usize| -> Vec<Set> {
        let a = get(c.pre, from, k);
        let mut v = vec![a.clone()];
        for o in comps {
            let OpKind::Compact { filter, .. } = &o.kind else { unreachable!() };
            let given: BTreeSet<Bytes> = o.filters.iter().flat_map(|f| f.1.iter().cloned()).collect();
            if data_of(&a).is_subset(&given) {
                if let Some(f) = filtered(filter, &a, &data_of(&a)) {
                    v.push(f);
                }
            }
        }
        v
    };
    for k in 0..n {
        let (a, b) = (get(c.pre, from, k), get(c.pre, to, k));
        let (a2, b2) = (get(c.post, from, k), get(c.post, to, k));
        let name = short(&c.plan.kws[k]);
        let say = |class, why: &str| {
            viol(
                class,
                format!(
                    "after compaction in phase {}: keyword {name} {why}; before: old {} new {}; after: old {} new {}",
                    c.phase,
                    show(&a),
                    show(&b),
                    show(&a2),
                    show(&b2)
                ),
            )
        };
        let cs = cands(k);
        // Copies left by an interrupted compaction share their chain.
        let same = b2 == b
            || (b2.is_subset(&b)
                && cs.iter().any(BTreeSet::is_empty)
                && (c.stale.contains(&(to, k))
                    || c.stale.contains(&(from, k)) && b.difference(&b2).all(|x| a.contains(x))));
        if !race && any_ok {
            let OpKind::Compact { rate, filter, .. } = &comps[0].kind else { unreachable!() };
            if !a2.is_empty() {
                bad.push(say("c_old", "is still found under the old key and label"));
            }
            let full = *rate >= 1.0;
            let kept = filtered(filter, &a, &data_of(&a)).unwrap_or_else(|| a.clone());
            let ok = if a.is_empty() {
                same
            } else if full {
                if kept.is_empty() {
                    same
                } else {
                    b2 == kept
                }
            } else {
                cs.iter().any(|x| *x == b2 && !x.is_empty())
                    || (same && cs.iter().any(BTreeSet::is_empty))
            };
            // What was changed under the new namespace is not overwritten.
            let ok = ok
                && (a.is_empty()
                    || same && c.stale.contains(&(to, k))
                    || b.iter().all(|x| b2.contains(x) || a.contains(x) && cs.iter().any(|s| !s.contains(x))));
            if !ok {
                let lost = kept.iter().any(|x| !b2.contains(x)) || b.iter().any(|x| !b2.contains(x));
                bad.push(say(if lost { "c_lost" } else { "c_content" }, "does not hold its live associations"));
            }
        } else {
            if !a.is_empty() {
                let in_new = b.is_empty() && cs.contains(&b2) && (!b2.is_empty() || (any_ok && cs.iter().any(BTreeSet::is_empty)));
                let gone_by_filter = cs.iter().any(BTreeSet::is_empty) && same;
                if a2 != a && !in_new && !gone_by_filter {
                    bad.push(say("c_lost", "is complete neither in the old nor in the new namespace"));
                } else if !a2.is_empty() && a2 != a {
                    bad.push(say("c_content", "is altered in the old namespace"));
                } else if !b2.is_empty() && !same && !cs.contains(&b2) {
                    bad.push(say("c_content", "is incomplete in the new namespace"));
                }
                if !b.is_empty() && !same {
                    bad.push(say("c_lost", "lost what the new namespace held"));
                }
                if race && all_ok && clean && !a2.is_empty() && one_batch {
                    bad.push(say("c_old", "is still found under the old key and label"));
                }
            } else {
                if !same {
                    bad.push(say("c_lost", "lost what the new namespace held"));
                }
                if !a2.is_empty() {
                    bad.push(say("c_content", "reappeared in the old namespace"));
                }
            }
        }
        if bad.len() > 6 {
            return bad;
        }
    }
    if race && one_batch && clean && !any_ok && !foreign && !collision {
        bad.push(viol("c_err", "every one of the racing compactions failed".into()));
    }

    // Searches running meanwhile.
    let mut empties: Vec<(u64, usize)> = vec![];
    let mut searches: Vec<&OpRec> = c
        .ops
        .iter()
        .filter(|o| under.contains(&o.ns) && matches!(o.kind, OpKind::Search { .. }))
        .collect();
    searches.sort_by_key(|o| o.invoke);
    for s in searches {
        let (reads, v) = reads(s, c.index);
        bad.extend(v);
        for r in reads {
            let (a, b) = (get(c.pre, from, r.kw), get(c.pre, to, r.kw));
            let cs = cands(r.kw);
            let ok = if s.ns == from {
                r.set == a || r.set.is_empty()
            } else {
                r.set == b || cs.contains(&r.set)
            };
            stats.hit("search_during_compaction");
            if !ok {
                bad.push(viol(
                    "c_race_read",
                    format!(
                        "{} read {} for keyword {} during a compaction; before: old {} new {}",
                        s.label(),
                        show(&r.set),
                        short(&c.plan.kws[r.kw]),
                        show(&a),
                        show(&b)
                    ),
                ));
            }
            if s.ns == from && r.set.is_empty() && !a.is_empty() && s.outcome.is_ok() {
                empties.push((s.end, r.kw));
                stats.hit("search_saw_old_namespace_emptied");
            }
            if s.ns == to
                && b.is_empty()
                && !cs.contains(&r.set)
                && empties.iter().any(|(end, k)| *end < s.invoke && *k == r.kw)
            {
                bad.push(viol(
                    "c_race_read",
                    format!(
                        "{}: keyword {} is readable neither under the old nor under the new namespace",
                        s.label(),
                        short(&c.plan.kws[r.kw])
                    ),
                ));
            }
            if bad.len() > 6 {
                return bad;
            }
        }
    }

    // Exact rollback.
    if !race {
        let o = comps[0];
        let writers = c.ops.iter().any(|x| matches!(x.kind, OpKind::Mod { .. }));
        if let (Outcome::Err(_), false) = (&o.outcome, writers) {
            let OpKind::Compact { filter, .. } = &o.kind else { unreachable!() };
            let failing: Vec<&crate::world::CallRec> = o.calls.iter().filter(|x| x.failed).collect();
            let refused_insert = failing.len() == 1
                && failing[0].kind == "insert"
                && (matches!(failing[0].act, Act::Reject | Act::ReqLost | Act::RepLost)
                    || matches!(failing[0].result, Some(Err(_))));
            let filter_failed = filter.failed(o.filters.len()) && failing.is_empty();
            let odd = o.calls.iter().any(|x| {
                x.corrupted || x.duprow || (!x.failed && x.act != Act::Ok) || matches!(x.act, Act::Late(_) | Act::Dup(_))
            });
            if (refused_insert || filter_failed) && !odd {
                stats.hit(if filter_failed {
                    "rollback_after_filter_error"
                } else if failing[0].act == Act::RepLost {
                    "rollback_after_lost_acknowledgement"
                } else {
                    "rollback_after_refused_insert"
                });
                let (et, ct) = match o.filters.last() {
                    Some(f) => (&f.2, &f.3),
                    None if one_batch => (&c.pre_dump.0, &c.pre_dump.1),
                    None => return bad,
                };
                for (name, before, after) in
                    [("entry", et, &c.post_dump.0), ("chain", ct, &c.post_dump.1)]
                {
                    if before != after {
                        let gone = before.keys().filter(|t| !after.contains_key(*t)).count();
                        let new = after.keys().filter(|t| !before.contains_key(*t)).count();
                        let changed = before.iter().filter(|(t, v)| after.get(*t).is_some_and(|w| w != *v)).count();
                        bad.push(viol(
                            "c_rollback",
                            format!("{} was refused but the {name} table differs: {gone} rows removed, {new} added, {changed} changed", o.label()),
                        ));
                    }
                }
            }
        }
    }

    // One batch after the other.
    if !race && c.plan.prop == "F28" && !c.ops.iter().any(|x| matches!(x.kind, OpKind::Mod { .. })) {
        bad.extend(check_batches(c, comps[0], from, stats));
    }

    // What a partial compaction may touch.
    if !race && c.plan.prop == "F27" && !c.ops.iter().any(|x| matches!(x.kind, OpKind::Mod { .. })) {
        bad.extend(check_share(c, comps[0], from, stats));
    }

    // Waste and renewal, when the tables hold nothing but the compacted index.
    let alone = c.pre.iter().all(|(ns, s)| *ns == from || s.iter().all(Option::is_none))
        && c.post.iter().all(|(ns, s)| *ns == to || s.iter().all(Option::is_none));
    if !race && any_ok && alone {
        let OpKind::Compact { rate, .. } = &comps[0].kind else { unreachable!() };
        let full = *rate >= 1.0;
        let (et1, ct1) = c.pre_dump;
        let (et2, ct2) = c.post_dump;
        if full && !c.tainted {
            bad.extend(check_waste(c.plan, &c.post[&to], c.post_dump));
            stats.hit("waste_checked");
        }
        let vals = |d: &Dump| -> BTreeSet<Bytes> { d.values().cloned().collect() };
        if let Some(t) = et2.keys().find(|t| et1.contains_key(*t)) {
            bad.push(viol("c_renew", format!("entry token {} survived a compaction", hex(t))));
        }
        if vals(et2).intersection(&vals(et1)).next().is_some() {
            bad.push(viol("c_renew", "an encrypted entry survived a compaction".into()));
        }
        let s1 = crate::audit::seeds(c.plan, et1);
        let s2 = crate::audit::seeds(c.plan, et2);
        let v1: BTreeSet<&Bytes> = s1.values().flatten().collect();
        let v2: BTreeSet<&Bytes> = s2.values().flatten().collect();
        let renewed = v1.is_disjoint(&v2);
        if full && !renewed {
            bad.push(viol("c_renew", "a chain seed survived its compaction".into()));
        }
        if !full && !c.tainted {
            // Chains compacted are those with a new seed: nothing is left of the old ones.
            let old = crate::audit::chains(&c.plan.keys[from.key], et1);
            let new = crate::audit::chains(&c.plan.keys[to.key], et2);
            for (tag, (seed, chain)) in &old {
                if new.get(tag).is_some_and(|n| n.0 == *seed) {
                    continue;
                }
                if let Some(t) = chain.iter().find(|t| ct2.contains_key(*t)) {
                    bad.push(viol("c_renew", format!("line {} of a chain survived the compaction of this chain", hex(t))));
                    break;
                }
                stats.hit("partial_renewal_checked");
            }
        }
        if full || renewed {
            if !c.tainted {
                if let Some(t) = ct2.keys().find(|t| ct1.contains_key(*t)) {
                    bad.push(viol("c_renew", format!("chain line {} survived its compaction", hex(t))));
                }
            }
            stats.hit("renewal_checked");
        }
    }
    bad
}

/// A compaction alone, in batches: each request is bounded, each batch is finished when the next one
/// starts and what is not its turn yet is left as it is.
fn check_batches(c: &PhaseCtx, o: &OpRec, from: Ns, stats: &mut Stats) -> Vec<Viol> {
    let mut bad = vec![];
    let batch = c.plan.batch;
    if batch == 0 {
        return bad;
    }
    let et: Vec<&crate::world::CallRec> = o.calls.iter().filter(|x| x.table == Table::Et && x.kind != "dump").collect();
    for x in &et {
        if x.tokens.len() > batch {
            bad.push(viol(
                "c_batch",
                format!("{} sent a {} of {} entries although its batches are of {batch}", o.label(), x.kind, x.tokens.len()),
            ));
            return bad;
        }
    }
    let (key, label) = (&c.plan.keys[from.key], &c.plan.labels[from.label]);
    let chains: BTreeMap<Tok, Vec<Tok>> = c
        .pre_dump
        .0
        .iter()
        .filter_map(|(t, v)| {
            let row = [(*t, v.clone())].into_iter().collect();
            let (hash, (_, chain)) = crate::audit::chains(key, &row).into_iter().next()?;
            (crate::audit::entry_token(key, label, &hash) == *t).then_some((*t, chain))
        })
        .collect();
    let mut met: BTreeSet<Tok> = BTreeSet::new();
    let mut batches = 0;
    for x in &et {
        if x.kind != "fetch" {
            continue;
        }
        let new: Vec<Tok> = x.tokens.iter().filter(|t| chains.contains_key(*t) && !met.contains(*t)).copied().collect();
        if new.is_empty() {
            continue;
        }
        batches += 1;
        for t in &met {
            let gone = et
                .iter()
                .any(|d| d.kind == "delete" && d.tokens.contains(t) && d.applied.first().is_some_and(|a| *a < x.issue));
            if !gone {
                bad.push(viol("c_batch", format!("{} started a batch before the previous one was finished", o.label())));
                return bad;
            }
        }
        met.extend(new);
    }
    if batches > 1 {
        stats.hit("several_batches");
        if !o.outcome.is_ok() {
            stats.hit("stopped_after_a_batch");
        }
    }
    for (t, chain) in &chains {
        if met.contains(t) {
            continue;
        }
        stats.hit("entry_not_reached");
        if c.pre_dump.0.get(t) != c.post_dump.0.get(t) {
            bad.push(viol("c_batch", format!("{} changed an entry of a batch it did not come to", o.label())));
        } else if chain.iter().any(|l| c.pre_dump.1.get(l) != c.post_dump.1.get(l)) {
            bad.push(viol("c_batch", format!("{} changed lines of a batch it did not come to", o.label())));
        }
        if !bad.is_empty() {
            return bad;
        }
    }
    let most = 2 + 9 * (c.pre_dump.0.len() / batch + 1);
    if o.calls.len() > most {
        bad.push(viol("c_batch", format!("{} sent {} requests, {most} at most were expected", o.label(), o.calls.len())));
    }
    stats.hit("batches_checked");
    bad
}

/// A partial compaction alone: it works on no more chains than its rate asks for, and leaves the
/// lines of the others as they are.
fn check_share(c: &PhaseCtx, o: &OpRec, from: Ns, stats: &mut Stats) -> Vec<Viol> {
    let mut bad = vec![];
    let OpKind::Compact { rate, .. } = &o.kind else { return bad };
    if *rate >= 1.0 {
        return bad;
    }
    let entries = c.pre_dump.0.len() as f64;
    let draws = if entries == 0.0 { 0.0 } else { ((entries * (entries.log2() + 0.5772) + 0.5) * rate.max(0.0)).ceil() };
    // Other ways of drawing the same share are fine.
    let bound = 1.0 + 1.5 * draws;
    let used: BTreeSet<Tok> =
        o.calls.iter().filter(|x| x.table == Table::Ct && x.kind != "insert").flat_map(|x| x.tokens.iter().copied()).collect();
    let mut touched = 0;
    for (_, chain) in crate::audit::chains(&c.plan.keys[from.key], &c.pre_dump.0).values() {
        if chain.iter().any(|t| used.contains(t)) {
            touched += 1;
        } else if chain.iter().any(|t| c.pre_dump.1.get(t) != c.post_dump.1.get(t)) {
            bad.push(viol("c_share", format!("{} changed lines of a chain it did not read", o.label())));
            break;
        } else if !chain.is_empty() {
            stats.hit("chain_left_alone");
        }
    }
    stats.hit("share_checked");
    if f64::from(touched) > bound {
        bad.push(viol(
            "c_share",
            format!("{} of {entries} entries with a rate of {rate} worked on {touched} chains, {bound} at most were expected", o.label()),
        ));
    }
    bad
}

/// Tables holding a single, freshly and fully compacted namespace.
pub fn check_waste(plan: &Plan, content: &Content, dump: &(Dump, Dump)) -> Vec<Viol> {
    let _ = plan;
    let mut bad = vec![];
    let live: Vec<&Set> = content.iter().flatten().filter(|s| !s.is_empty()).collect();
    let need: usize = live.iter().map(|s| lines(s)).sum();
    if dump.0.len() != live.len() {
        bad.push(viol(
            "c_waste",
            format!("{} entries for {} keywords after a full compaction", dump.0.len(), live.len()),
        ));
    }
    if dump.1.len() > need {
        bad.push(viol(
            "c_waste",
            format!("{} chain lines where {need} are enough after a full compaction", dump.1.len()),
        ));
    }
    bad
}

/// Chain seeds in the tables at one moment.
pub fn check_seeds(plan: &Plan, et: &Dump, is_key: &dyn Fn(&[u8]) -> bool) -> Vec<Viol> {
    let mut bad = vec![];
    let mut owner: BTreeMap<Bytes, (usize, Bytes)> = BTreeMap::new();
    for (id, seeds) in crate::audit::seeds(plan, et) {
        for s in seeds {
            if s.iter().collect::<BTreeSet<_>>().len() < 4 {
                bad.push(viol("srv_seed", format!("chain seed {} is not random", hex(&s))));
            }
            if is_key(&s) {
                bad.push(viol("srv_seed", format!("chain seed {} was also given as a user key", hex(&s))));
            }
            if let Some(o) = owner.insert(s.clone(), id.clone()) {
                if o.1 != id.1 {
                    bad.push(viol("srv_seed", format!("chain seed {} used for two keywords", hex(&s))));
                }
            }
        }
    }
    bad
}
