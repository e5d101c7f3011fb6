//! Snapshots of the bundled store, taken while it is in use, damaged, and read back.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use cosmian_crypto_core::bytes_ser_de::{Deserializer, Serializable, Serializer};
use cosmian_findex::{InMemoryDb, ENTRY_LENGTH, LINK_LENGTH};

use crate::oracle::{viol, Set};
use crate::plan::*;
use crate::rng::{hash, Rng};
use crate::run::RunOut;
use crate::store::{contract, map_of, mem_apply, mem_dump};
use crate::threads::{run_index, Env, Saved, Stores};
use crate::types::*;
use crate::world::{panic_msg, Outcome};

fn load<const N: usize>(b: &[u8]) -> Result<Result<InMemoryDb<N>, String>, String> {
    catch_unwind(AssertUnwindSafe(|| InMemoryDb::<N>::deserialize(b).map_err(|e| e.to_string())))
        .map_err(panic_msg)
}

#[derive(Clone, Debug)]
enum Damage {
    Truncate(usize),
    Flip(Vec<usize>),
    Zero(usize, usize),
    Garbage(usize, usize),
    Extend(usize),
    Header(u64),
    /// Write torn after some bytes: the rest of the file holds what was there before.
    Torn(usize, bool),
}

impl Damage {
    fn name(&self) -> &'static str {
        match self {
            Damage::Truncate(_) => "snapshot_truncated",
            Damage::Flip(_) => "snapshot_bits_flipped",
            Damage::Zero(..) => "snapshot_zeroed",
            Damage::Garbage(..) => "snapshot_overwritten",
            Damage::Extend(_) => "snapshot_extended",
            Damage::Header(_) => "snapshot_header_changed",
            Damage::Torn(..) => "snapshot_torn",
        }
    }
}

fn damage(r: &mut Rng, b: &[u8], d: &mut Option<Damage>) -> Vec<u8> {
    let n = b.len();
    let mut v = b.to_vec();
    let k = match r.below(20) {
        0..=6 => Damage::Truncate(match r.below(4) {
            0 => n - 1,
            1 => r.below(n.min(20)),
            _ => r.below(n),
        }),
        7..=10 => Damage::Flip((0..r.range(1, 3)).map(|_| r.below(8 * n)).collect()),
        11 => Damage::Flip(vec![r.below(8 * n.min(48))]),
        12 => {
            let a = r.below(n);
            Damage::Zero(a, r.range(a + 1, n))
        }
        13 => {
            let a = r.below(n);
            Damage::Garbage(a, r.range(a + 1, n.min(a + 300)))
        }
        14 => Damage::Extend(r.range(1, 200)),
        15 => Damage::Header(match r.below(4) {
            0 => u64::MAX,
            1 => 1 << r.range(20, 63),
            2 => 1 << r.range(8, 20),
            _ => r.next() % 64,
        }),
        _ => Damage::Torn(r.below(n), r.pct(50)),
    };
    match &k {
        Damage::Truncate(m) => v.truncate(*m),
        Damage::Flip(bits) => bits.iter().for_each(|b| v[b / 8] ^= 1 << (b % 8)),
        Damage::Zero(a, b) => v[*a..*b].fill(0),
        Damage::Garbage(a, b) => r.fill(&mut v[*a..*b]),
        Damage::Extend(m) => {
            let e = r.bytes(*m);
            v.extend(e);
        }
        Damage::Header(x) => {
            let skip = v.iter().position(|b| b & 0x80 == 0).map_or(n, |p| p + 1);
            let mut h = vec![];
            let mut x = *x;
            loop {
                let b = (x & 0x7f) as u8;
                x >>= 7;
                h.push(if x > 0 { b | 0x80 } else { b });
                if x == 0 {
                    break;
                }
            }
            h.extend_from_slice(&v[skip..]);
            v = h;
        }
        Damage::Torn(m, zero) => {
            if *zero {
                v[*m..].fill(0);
            } else {
                r.fill(&mut v[*m..]);
            }
        }
    }
    *d = Some(k);
    v
}

pub fn run_snap(plan: &Plan, log: bool) -> RunOut {
    let (mut out, stores, mut saved) = run_index(plan, log);
    if !out.viols.is_empty() {
        return out;
    }
    let mut r = Rng::new(hash(&[plan.seed, 0x51]));
    // At rest: exact, and as announced.
    let fin = match (stores.et.serialize(), stores.ct.serialize()) {
        (Ok(et), Ok(ct)) => Saved { et: et.to_vec(), ct: ct.to_vec() },
        _ => {
            out.viols.push(viol("snap", "cannot serialize".into()));
            return out;
        }
    };
    if fin.et.len() != stores.et.length() || fin.ct.len() != stores.ct.length() {
        out.viols.push(viol("snap", "announced length differs from what is written".into()));
    }
    saved.push(fin.clone());
    saved.push(fin);
    let last = saved.len() - 1;
    // Everything ever indexed.
    let n = plan.kws.len();
    let mut added: Vec<Set> = vec![Set::new(); n];
    for p in &plan.phases {
        for (_, ops) in &p.clients {
            for op in ops {
                if let OpKind::Mod { add: true, items, .. } = &op.kind {
                    for (iv, kws) in items {
                        for k in kws {
                            added[*k].insert(iv.clone());
                        }
                    }
                }
            }
        }
    }
    let homes: Vec<Ns> = crate::run::namespaces(plan).into_iter().collect();
    for (i, s) in saved.iter().enumerate() {
        let rounds = if i == last { 1 } else { 6 };
        for round in 0..rounds {
            let mut et = s.et.clone();
            let mut ct = s.ct.clone();
            let mut what = None;
            let clean = round == 0;
            let on_et = r.pct(50);
            if !clean {
                let b = if on_et { &mut et } else { &mut ct };
                if b.is_empty() {
                    continue;
                }
                *b = damage(&mut r, b, &mut what);
            }
            let changed = et != s.et || ct != s.ct;
            let name = what.as_ref().map_or("none", Damage::name);
            if changed {
                out.stats.fire(what.as_ref().unwrap().name());
            }
            if log {
                out.log.push(format!("snapshot {i}, damage {what:?} to the {} table", if on_et { "entry" } else { "chain" }));
            }
            let (a, b) = (load::<ENTRY_LENGTH>(&et), load::<LINK_LENGTH>(&ct));
            let (a, b) = match (a, b) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(m), _) | (_, Err(m)) => {
                    out.viols.push(viol("snap_panic", format!("reading a snapshot ({name}: {what:?}) panicked: {m}")));
                    continue;
                }
            };
            let truncated = matches!(what, Some(Damage::Truncate(_)));
            let res = if on_et { a.is_ok() } else { b.is_ok() };
            if changed && truncated && res {
                out.viols.push(viol("snap_trunc", format!("a truncated snapshot was accepted ({what:?})")));
            }
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    if changed {
                        out.stats.hit("damaged_snapshot_read");
                    }
                    let exact = clean && i == last;
                    // A value longer than one line whose first line disappeared cannot be told from
                    // a shorter one: contents are only compared when every chain line is still there.
                    let Ok(Ok(orig_ct)) = load::<LINK_LENGTH>(&s.ct) else { continue };
                    let there = mem_dump(&b);
                    let complete = mem_dump(&orig_ct).keys().all(|t| there.contains_key(t));
                    let before = (mem_dump(&a), mem_dump(&b));
                    if exact && before != stores.dump() {
                        out.viols.push(viol("snap", "the restored rows differ".into()));
                    }
                    let env = Env {
                        plan: plan.clone(),
                        stores: Arc::new(Stores { et: Arc::new(a), ct: Arc::new(b) }),
                        homes: plan.homes.clone(),
                    };
                    let orig = Env { plan: plan.clone(), stores: stores.clone(), homes: plan.homes.clone() };
                    for ns in &homes {
                        let op = env.read(*ns);
                        if let Outcome::Panicked(m) = &op.outcome {
                            out.viols.push(viol("snap_panic", format!("searching a restored store ({what:?}) panicked: {m}")));
                        }
                        for (_, m) in &op.rounds {
                            for (k, set) in m {
                                let Some(k) = plan.kws.iter().position(|x| x == k) else {
                                    out.viols.push(viol("snap_altered", format!("unknown keyword read back ({what:?})")));
                                    continue;
                                };
                                if let Some(x) = set.difference(&added[k]).next().filter(|_| complete) {
                                    out.viols.push(viol(
                                        "snap_altered",
                                        format!("a restored store ({what:?}) returned {x:?}, never indexed for keyword {k}"),
                                    ));
                                }
                            }
                        }
                        if exact {
                            let o = orig.read(*ns);
                            if o.rounds.iter().map(|x| &x.1).ne(op.rounds.iter().map(|x| &x.1)) {
                                out.viols.push(viol("snap", "searches of the restored store differ".into()));
                            }
                            out.stats.hit("snapshot_restored");
                        }
                    }
                }
                (a, b) => {
                    if clean {
                        let e = a.err().or(b.err()).unwrap();
                        out.viols.push(viol("snap", format!("an intact snapshot is refused: {e}")));
                    }
                    if changed {
                        out.stats.hit("damaged_snapshot_refused");
                    }
                }
            }
        }
        if out.viols.len() > 4 {
            break;
        }
    }
    out
}

/// Tables of sizes around the limits of the variable-length numbers of the format, on their own or
/// one after the other in one buffer.
pub fn run_big(plan: &Plan, log: bool) -> RunOut {
    let mut out = RunOut { nontrivial: true, ..RunOut::default() };
    let mut r = Rng::new(hash(&[plan.seed, 0xb16]));
    let size = |r: &mut Rng| match r.below(30) {
        0..=19 => *r.pick(&[0, 1, 2, 63, 64, 100, 126, 127, 128, 129, 200, 255, 256, 257]),
        20..=28 => r.range(1, 1200),
        _ => *r.pick(&[16_382, 16_383, 16_384, 16_385, 20_000]),
    };
    let (n, m) = (size(&mut r), size(&mut r));
    let a = one_big::<ENTRY_LENGTH>(&mut r, n, &mut out, log);
    let b = one_big::<LINK_LENGTH>(&mut r, m, &mut out, log);
    out.trace = hash(&[plan.seed, n as u64, m as u64]);
    let (Some(a), Some(b)) = (a, b) else { return out };
    // Both tables in one file.
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut ser = Serializer::new();
        let x = ser.write(&a).map_err(|e| e.to_string())?;
        let y = ser.write(&b).map_err(|e| e.to_string())?;
        if (x, y) != (a.length(), b.length()) {
            return Err(format!("writing returned {x} and {y} bytes, {} and {} were announced", a.length(), b.length()));
        }
        let bytes = ser.finalize();
        let mut de = Deserializer::new(&bytes);
        let c = de.read::<InMemoryDb<ENTRY_LENGTH>>().map_err(|e| e.to_string())?;
        let d = de.read::<InMemoryDb<LINK_LENGTH>>().map_err(|e| e.to_string())?;
        if !de.finalize().is_empty() {
            return Err("reading left bytes behind".into());
        }
        if mem_dump(&a) != mem_dump(&c) || mem_dump(&b) != mem_dump(&d) {
            return Err("the restored rows differ".into());
        }
        Ok(())
    }));
    match res {
        Ok(Ok(())) => out.stats.hit("tables_in_one_file"),
        Ok(Err(m)) => out.viols.push(viol("snap", format!("tables of {n} and {m_} rows in one buffer: {m}", m_ = b.len()))),
        Err(e) => out.viols.push(viol("snap_panic", panic_msg(e))),
    }
    out
}

fn sorted(r: &Reply) -> (Vec<Tok>, Vec<(Tok, Bytes)>) {
    let (mut t, mut v) = match r {
        Reply::Tokens(t) => (t.clone(), vec![]),
        Reply::Rows(v) => (vec![], v.clone()),
        Reply::Unit => (vec![], vec![]),
    };
    t.sort_unstable();
    v.sort_unstable();
    (t, v)
}

fn one_big<const N: usize>(r: &mut Rng, n: usize, out: &mut RunOut, log: bool) -> Option<InMemoryDb<N>> {
    let mut db = InMemoryDb::<N>::default();
    let len = N + 28;
    let rows: Vec<(Tok, Bytes)> = (0..n)
        .map(|i| {
            let mut t = [0; 32];
            if r.pct(10) {
                t[..8].copy_from_slice(&(i as u64).to_le_bytes());
            } else {
                r.fill(&mut t);
            }
            let v = if r.pct(10) { vec![r.next() as u8; len] } else { r.bytes(len) };
            (t, v)
        })
        .collect();
    let mut model: Dump = rows.iter().cloned().collect();
    let n = model.len();
    let rows: Vec<(Tok, Bytes)> = model.iter().map(|(t, v)| (*t, v.clone())).collect();
    if r.pct(50) {
        db.load(map_of::<N>(&rows));
    } else if let Err(e) = mem_apply(&db, &Req::Insert(rows.clone())) {
        out.viols.push(viol("snap", format!("insertion of {n} fresh rows: {e}")));
        return None;
    }
    if log {
        out.log.push(format!("table of {n} rows"));
    }
    let mut bad = |class: &'static str, m: String| out.viols.push(viol(class, format!("table of {n} rows: {m}")));
    if db.len() != n || db.is_empty() != (n == 0) || db.size() != n * (32 + len) {
        bad("snap", format!("len {} is_empty {} size {}", db.len(), db.is_empty(), db.size()));
    }
    let bytes = match db.serialize() {
        Ok(b) => b.to_vec(),
        Err(e) => {
            bad("snap", format!("cannot serialize: {e}"));
            return None;
        }
    };
    if bytes.len() != db.length() {
        bad("snap", format!("{} bytes announced, {} written", db.length(), bytes.len()));
    }
    let back = match load::<N>(&bytes) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => {
            bad("snap", format!("an intact snapshot is refused: {e}"));
            return None;
        }
        Err(m) => {
            bad("snap_panic", m);
            return None;
        }
    };
    if mem_dump(&back) != model {
        bad("snap", "the restored rows differ".into());
        return None;
    }
    // Cuts, in particular at the end of a row.
    let width = 32 + if N + 28 >= 128 { 2 } else { 1 } + len;
    for i in 0..8 {
        let cut = match i {
            0 => bytes.len() - 1,
            1 if n > 0 => bytes.len() - width,
            2 if n > 0 => bytes.len() - width * r.range(1, n),
            3 if n > 0 => bytes.len() - width * (n / 2).max(1),
            4 => 0,
            _ => r.below(bytes.len()),
        };
        match load::<N>(&bytes[..cut]) {
            Ok(Err(_)) => {}
            Ok(Ok(x)) => bad("snap_trunc", format!("accepted when cut after {cut} of {} bytes: {} rows", bytes.len(), x.len())),
            Err(m) => bad("snap_panic", m),
        }
    }
    // The restored table works as the original.
    for _ in 0..12 {
        let some = |r: &mut Rng, present: bool| -> Vec<(Tok, Bytes)> {
            let mut v = BTreeMap::new();
            for _ in 0..r.range(0, 5) {
                let t = if present && n > 0 {
                    rows[r.below(n)].0
                } else {
                    let mut t = [0; 32];
                    r.fill(&mut t);
                    t
                };
                v.insert(t, r.bytes(len));
            }
            v.into_iter().collect()
        };
        let present = r.pct(70);
        let new = some(r, present);
        let keys: Vec<Tok> = new.iter().map(|x| x.0).collect();
        let req = match r.below(5) {
            0 => Req::Dump,
            1 => Req::Fetch(keys),
            2 => {
                let old = keys.iter().filter_map(|k| model.get(k).map(|v| (*k, v.clone()))).collect();
                Req::Upsert(old, new)
            }
            3 => Req::Insert(new),
            _ => Req::Delete(keys),
        };
        let got = mem_apply(&back, &req);
        let want = contract(&mut model, req.clone());
        let same = match (&got, &want) {
            (Ok(a), Ok(b)) => sorted(a) == sorted(b),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same || mem_dump(&back) != model {
            bad("snap", format!("{} on the restored table differs from the contract", req.kind()));
            return None;
        }
    }
    if back.len() != model.len() {
        bad("snap", format!("len {} of {} rows", back.len(), model.len()));
    }
    let mut back = back;
    back.flush();
    if !back.is_empty() || db.len() != n {
        bad("snap", "flushing".into());
    }
    out.stats.hit("big_snapshot_restored");
    out.stats.ops += 12;
    Some(db)
}
