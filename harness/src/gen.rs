//! Generators of plans. Every choice comes from the seed of the run.

use crate::plan::*;
use crate::rng::Rng;
use crate::types::*;

pub struct G {
    pub r: Rng,
    pub plan: Plan,
    next_op: u32,
    counter: u32,
    /// Values used so far, by keyword.
    used: Vec<Vec<Iv>>,
    no_empty: bool,
    /// Per mille of pointers among indexed values.
    pointers: u32,
    max_items: usize,
    big: bool,
}

const EDGE: [usize; 22] =
    [0, 1, 2, 14, 15, 16, 17, 30, 31, 32, 46, 47, 48, 62, 63, 64, 78, 79, 80, 81, 95, 160];

impl G {
    pub fn new(prop: &str, profile: &str, seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let dmax = *r.pick(&[1, 2, 4, 10, 40]);
        Self {
            plan: Plan {
                prop: prop.into(),
                profile: profile.into(),
                seed,
                mem: r.pct(35),
                batch: 0,
                dmax,
                timeout: 1_000_000,
                share: r.pct(40),
                trace: prop != "F23" && r.pct(7),
                keys: vec![],
                labels: vec![],
                kws: vec![],
                peers: vec![],
                homes: vec![Ns { key: 0, label: 0 }],
                phases: vec![],
                fates: vec![],
            },
            r,
            next_op: 0,
            counter: 0,
            used: vec![],
            no_empty: false,
            pointers: 100,
            max_items: 3,
            big: false,
        }
    }

    fn id(&mut self) -> u32 {
        self.next_op += 1;
        self.next_op - 1
    }

    fn key(&mut self) -> usize {
        let k = if !self.plan.keys.is_empty() && self.r.pct(30) {
            // Nearly the same key.
            let mut k = self.plan.keys[0].clone();
            let i = self.r.below(16);
            k[i] ^= 1 << self.r.below(8);
            k
        } else {
            self.r.bytes(16)
        };
        if self.plan.keys.contains(&k) {
            return self.key();
        }
        self.plan.keys.push(k);
        self.plan.keys.len() - 1
    }

    fn label(&mut self) -> usize {
        let n = self.plan.labels.len();
        let l = match self.r.below(10) {
            9 => self.text(),
            0 => vec![],
            7 => {
                // A long common prefix.
                let mut l = vec![b'n'; *self.r.pick(&[8, 31, 32, 64, 128, 500])];
                l.push(self.r.next() as u8);
                l
            }
            8 => vec![0; self.r.range(1, 40)],
            1 if n > 0 => {
                // Extension of another label.
                let mut l = self.plan.labels[self.r.below(n)].clone();
                l.push(self.r.next() as u8);
                l
            }
            2 if n > 0 => {
                let mut l = self.plan.labels[self.r.below(n)].clone();
                l.pop();
                l
            }
            3 if !self.plan.kws.is_empty() => {
                let i = self.r.below(self.plan.kws.len());
                self.plan.kws[i].clone()
            }
            6 if n > 0 => {
                // Nearly the same label.
                let mut l = self.plan.labels[self.r.below(n)].clone();
                if !l.is_empty() {
                    let at = self.r.below(l.len());
                    l[at] ^= 1 << self.r.below(8);
                }
                l
            }
            4 => format!("label {n}").into_bytes(),
            _ => {
                let n = *self.r.pick(&[1, 8, 16, 32, 33, 100]);
                self.r.bytes(n)
            }
        };
        if self.plan.labels.contains(&l) {
            return self.label();
        }
        self.plan.labels.push(l);
        self.plan.labels.len() - 1
    }

    pub fn kws(&mut self, n: usize) {
        for i in 0..n {
            loop {
                let k = match self.r.below(12) {
                    11 => self.text(),
                    9 => {
                        // A long common prefix.
                        let mut k = vec![b'p'; *self.r.pick(&[8, 15, 16, 31, 32, 33, 64, 128])];
                        k.push(self.r.next() as u8);
                        k
                    }
                    10 if i > 0 => {
                        // Nearly the same keyword.
                        let mut k = self.plan.kws[self.r.below(i)].clone();
                        match self.r.below(4) {
                            0 => {
                                k.pop();
                            }
                            1 => k.insert(0, b'x'),
                            2 if !k.is_empty() => {
                                let at = self.r.below(k.len());
                                k[at] ^= 1 << self.r.below(8);
                            }
                            _ => {
                                if let Some(b) = k.last_mut() {
                                    *b ^= 0x20;
                                }
                            }
                        }
                        if k.is_empty() && self.no_empty {
                            k.push(b'y');
                        }
                        k
                    }
                    0 if !self.no_empty && self.r.pct(30) => vec![],
                    1 => format!("keyword-{i:04}").into_bytes(),
                    2 => vec![b'w'; self.r.range(1, 40)],
                    3 if i > 0 => {
                        let mut k = self.plan.kws[self.r.below(i)].clone();
                        k.push(0);
                        k
                    }
                    4 => {
                        let n = *self.r.pick(&[15, 16, 17, 31, 32, 47, 300]);
                        self.r.bytes(n)
                    }
                    5 => vec![self.r.next() as u8],
                    _ => {
                        let n = self.r.range(4, 20);
                        self.r.bytes(n)
                    }
                };
                if !self.plan.kws.contains(&k) {
                    self.plan.kws.push(k);
                    break;
                }
            }
        }
        self.used.resize(self.plan.kws.len(), vec![]);
    }

    fn clients(&mut self, n: usize) {
        self.plan.peers = vec![false; n];
    }

    fn data(&mut self) -> Bytes {
        self.counter += 1;
        if self.r.pct(12) {
            return self.near_data();
        }
        if self.r.below(400) == 0 {
            let n = *self.r.pick(&[1000, 4079, 4080, 4081, 4096, 5000, 9000]);
            let mut v = self.r.bytes(n);
            if self.r.pct(50) {
                v[..n - 8].fill(7);
            }
            return v;
        }
        let n = match self.r.below(20) {
            0..=7 => *self.r.pick(&EDGE),
            8..=15 => self.r.range(3, 24),
            16..=17 => self.r.range(25, 120),
            18 if self.big => self.r.range(1000, 6000),
            18 => self.r.range(120, 300),
            _ => self.r.range(200, 600),
        };
        let n = if n == 0 && self.no_empty { 1 } else { n };
        let mut v = match self.r.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => vec![b'w'; n],
            3 => vec![b'l'; n],
            4 => vec![self.r.next() as u8; n],
            _ => self.r.bytes(n),
        };
        // Values long enough are unique; the mark is at either end.
        let mark = self.counter.to_le_bytes();
        if n >= 4 {
            if self.r.pct(50) {
                v[..2].copy_from_slice(&mark[..2]);
            } else {
                v[n - 2..].copy_from_slice(&mark[..2]);
            }
        }
        v
    }

    /// Texts that careless handling of strings would confuse.
    fn text(&mut self) -> Bytes {
        let mut s = self.r.pick(&["john", "John", "JOHN", "straße", "STRASSE", "é", "e\u{301}", "a b", "a  b", "0", "00"]).to_string();
        match self.r.below(8) {
            0 => s.push(' '),
            1 => s.insert(0, ' '),
            2 => s.push('\n'),
            3 => s.push('\0'),
            4 => s.push('.'),
            _ => {}
        }
        s.into_bytes()
    }

    /// Values close to each other: common prefixes, extensions, truncations.
    fn near_data(&mut self) -> Bytes {
        let all: Vec<&Iv> = self.used.iter().flatten().collect();
        let n = all.len();
        let old = if n > 0 {
            match all[self.r.below(n)] {
                Iv::D(d) => d.clone(),
                Iv::P(k) => k.clone(),
            }
        } else {
            vec![]
        };
        let mut v = match self.r.below(5) {
            4 => self.text(),
            0 => {
                let mut v = vec![b'd'; *self.r.pick(&[7, 8, 14, 15, 16, 31, 32, 63, 64, 100])];
                v.push(self.r.next() as u8);
                v
            }
            1 => {
                let mut v = old;
                v.push(self.r.next() as u8);
                v
            }
            2 => {
                let mut v = old;
                v.pop();
                v
            }
            _ => {
                let mut v = old;
                if let Some(b) = v.last_mut() {
                    *b ^= 1;
                }
                v
            }
        };
        if v.is_empty() && self.no_empty {
            v.push(1);
        }
        v
    }

    fn value(&mut self, kw: usize) -> Iv {
        if self.r.below(1000) < self.pointers as usize && self.plan.kws.len() > 1 {
            if self.r.pct(6) {
                return Iv::P(self.r.bytes(6));
            }
            let i = self.r.below(self.plan.kws.len());
            return Iv::P(self.plan.kws[i].clone());
        }
        let n = self.used[kw].len();
        if n > 0 && self.r.pct(30) {
            return self.used[kw][self.r.below(n)].clone();
        }
        Iv::D(self.data())
    }

    pub fn modify(&mut self, add: bool, ns: NsRef) -> Op {
        let n = match self.r.below(300) {
            0..=2 => 0,
            3 => self.r.range(20, 140),
            _ => self.r.range(1, self.max_items),
        };
        let mut items: Vec<(Iv, Vec<usize>)> = vec![];
        for _ in 0..n {
            let nk = match self.r.below(100) {
                0..=64 => 1,
                65 => self.r.range(3, 12),
                _ => self.r.range(1, 3),
            };
            let mut kws: Vec<usize> = (0..nk).map(|_| self.r.below(self.plan.kws.len())).collect();
            kws.sort_unstable();
            kws.dedup();
            if self.r.pct(if n == 1 { 4 } else { 2 }) {
                kws.clear();
            }
            let kw = kws.first().copied().unwrap_or(0);
            let iv = if !add && !self.used[kw].is_empty() && self.r.pct(85) {
                let i = self.r.below(self.used[kw].len());
                self.used[kw][i].clone()
            } else {
                self.value(kw)
            };
            for k in &kws {
                self.used[*k].push(iv.clone());
            }
            items.push((iv, kws));
        }
        Op { id: self.id(), kind: OpKind::Mod { add, ns, items } }
    }

    pub fn search(&mut self, ns: NsRef) -> Op {
        let n = self.plan.kws.len();
        let k = if self.r.pct(40) { n } else { self.r.range(1, n) };
        let mut kws: Vec<usize> = (0..n).collect();
        self.r.shuffle(&mut kws);
        kws.truncate(k.min(12));
        if self.r.pct(1) {
            kws.clear();
        }
        kws.sort_unstable();
        let suspend = if self.r.pct(25) { self.r.range(1, 2 * self.plan.dmax as usize) as u64 } else { 0 };
        Op { id: self.id(), kind: OpKind::Search { ns, kws, stop: Stop::Never, suspend } }
    }

    /// A phase of random modifications and searches.
    fn work(&mut self, n_ops: usize, adds: u32, searches: u32, homes: &[usize]) -> Phase {
        let nc = self.plan.peers.len();
        let mut clients: Vec<(usize, Vec<Op>)> = (0..nc).map(|c| (c, vec![])).collect();
        for _ in 0..n_ops {
            let c = self.r.below(nc);
            let ns = NsRef::Home(*self.r.pick(homes));
            let op = if self.r.pct(searches) {
                self.search(ns)
            } else {
                let add = self.r.pct(adds);
                self.modify(add, ns)
            };
            clients[c].1.push(op);
        }
        clients.retain(|c| !c.1.is_empty());
        Phase { clients, ..Phase::default() }
    }

    /// A phase run by one client, without any fault.
    fn sequential(&mut self, ops: Vec<Op>) -> Phase {
        Phase { clients: vec![(0, ops)], ..Phase::default() }
    }

    fn search_all(&mut self, ns: NsRef) -> Op {
        let kws = (0..self.plan.kws.len()).collect();
        Op { id: self.id(), kind: OpKind::Search { ns, kws, stop: Stop::Never, suspend: 0 } }
    }

    fn act(&mut self) -> Act {
        let d = self.r.range(0, 3 * self.plan.dmax as usize + 20) as u64;
        match self.r.below(10) {
            0 | 1 => Act::ReqLost,
            2 | 3 => Act::RepLost,
            4 => Act::Reject,
            5 => Act::Late(d),
            6 => Act::Dup(d),
            7 if self.r.pct(40) => Act::Panic,
            7 => Act::CrashBefore,
            8 => Act::CrashSent,
            _ => Act::CrashApplied,
        }
    }

    fn set_fate(&mut self, f: Fate) {
        if !self.plan.fates.iter().any(|g| g.op == f.op && g.call == f.call) {
            self.plan.fates.push(f);
        }
    }

    /// Benign disturbances: order of rows, delays.
    fn benign(&mut self) {
        let ops: Vec<u32> =
            self.plan.phases.iter().flat_map(|p| &p.clients).flat_map(|c| &c.1).map(|o| o.id).collect();
        if ops.is_empty() {
            return;
        }
        for _ in 0..self.r.range(0, 6) {
            let op = *self.r.pick(&ops);
            let call = self.r.below(4) as u32;
            let mut f = Fate::new(op, call, Act::Ok);
            f.shuffle = self.r.pct(60);
            f.duprow = self.r.pct(12);
            f.slow = if self.r.pct(40) { self.r.range(1, 8 * self.plan.dmax as usize) as u64 } else { 0 };
            self.set_fate(f);
        }
    }

    /// Faults on the operations of some phases.
    fn faults(&mut self, phases: std::ops::Range<usize>, dups: bool) {
        let mut ops: Vec<(u32, &'static str)> = vec![];
        for p in &self.plan.phases[phases.clone()] {
            for (_, v) in &p.clients {
                ops.extend(v.iter().map(|o| (o.id, o.kind.name())));
            }
        }
        let mods: Vec<u32> =
            ops.iter().filter(|o| o.1 == "add" || o.1 == "delete").map(|o| o.0).collect();
        if ops.is_empty() {
            return;
        }
        self.plan.timeout = 2 * self.plan.dmax + 5 + self.r.range(0, 30) as u64;
        for _ in 0..self.r.range(1, 4) {
            let op = if !mods.is_empty() && self.r.pct(75) {
                *self.r.pick(&mods)
            } else {
                self.r.pick(&ops).0
            };
            let call = *self.r.pick(&[0, 1, 1, 1, 2, 2, 2, 2, 3, 4]);
            let mut act = self.act();
            if !dups && matches!(act, Act::Dup(_) | Act::Late(_)) {
                act = Act::Reject;
            }
            let mut f = Fate::new(op, call, act);
            f.shuffle = self.r.pct(20);
            f.duprow = self.r.pct(12);
            self.set_fate(f);
        }
        if self.r.pct(25) {
            let i = self.r.range(phases.start, phases.end - 1);
            let t = self.r.range(1, 12 * self.plan.dmax as usize + 10) as u64;
            self.plan.phases[i].restarts.push(t);
        }
        if self.r.pct(20) {
            let i = self.r.range(phases.start, phases.end - 1);
            let c = self.r.below(self.plan.peers.len());
            let a = self.r.range(0, 8 * self.plan.dmax as usize) as u64;
            let b = a + self.r.range(1, 2 * self.plan.timeout as usize) as u64;
            self.plan.phases[i].partitions.push((c, a, b));
        }
    }

    fn build_phase(&mut self, n: usize) -> Phase {
        let mut ops = vec![];
        for _ in 0..n {
            let add = self.r.pct(72);
            ops.push(self.modify(add, NsRef::Home(0)));
        }
        self.sequential(ops)
    }

    fn filter(&mut self) -> Filter {
        match self.r.below(10) {
            0..=3 => Filter::Keep,
            4..=6 => {
                let mut v = vec![];
                for u in &self.used {
                    for iv in u {
                        if let Iv::D(d) = iv {
                            v.push(d.clone());
                        }
                    }
                }
                self.r.shuffle(&mut v);
                let n = if v.is_empty() { 0 } else { self.r.range(1, v.len()) };
                v.truncate(n);
                v.sort();
                v.dedup();
                Filter::Drop(v)
            }
            7 => {
                let a = self.data();
                let b = self.data();
                Filter::Extra(vec![a, b])
            }
            8 => Filter::DropAll,
            _ => Filter::Keep,
        }
    }

    /// Number of keywords: usually few, sometimes many.
    fn size(&mut self, few: &[usize], many: usize) -> usize {
        if self.r.pct(6) {
            self.r.range(9, many)
        } else {
            *self.r.pick(few)
        }
    }

    /// A filter failing at some point of a compaction in `batches` batches.
    fn failing(&mut self, batches: usize) -> Filter {
        if batches > 1 && self.r.pct(70) {
            Filter::FailAt(self.r.range(2, batches) as u32)
        } else {
            Filter::Fail
        }
    }

    fn batches(&self) -> usize {
        if self.plan.batch == 0 {
            1
        } else {
            self.plan.kws.len() / self.plan.batch + 1
        }
    }

    fn rate(&mut self) -> f64 {
        match self.r.below(10) {
            0..=5 => 1.0,
            6 => 2.5,
            7 => 0.5,
            8 => 0.1,
            _ => *self.r.pick(&[1e-6, 1e-6, 0.0, 1e300]),
        }
    }

    fn compact(&mut self, to: Ns, rate: f64, filter: Filter) -> Op {
        Op { id: self.id(), kind: OpKind::Compact { from: NsRef::Home(0), to, rate, filter } }
    }

    /// A fresh namespace to compact to.
    fn fresh(&mut self, ns: Ns, rotate: bool) -> Ns {
        if rotate {
            let key = self.key();
            let label = if self.r.pct(50) { self.label() } else { ns.label };
            Ns { key, label }
        } else {
            Ns { key: ns.key, label: self.label() }
        }
    }
}

pub fn base(prop: &str, profile: &str, seed: u64) -> G {
    let mut g = G::new(prop, profile, seed);
    g.key();
    g.label();
    g
}

/// Concurrent modifications and searches.
pub fn mods(prop: &str, profile: &str, seed: u64, faulty: bool) -> Plan {
    let mut g = base(prop, profile, seed);
    let n = if g.r.pct(4) { g.r.range(5, 24) } else { g.r.range(1, 4) };
    g.kws(n);
    let nc = *g.r.pick(&[1, 2, 2, 3, 3, 4, 5, 8]);
    g.clients(nc);
    g.pointers = *g.r.pick(&[0, 0, 100, 300]);
    g.max_items = *g.r.pick(&[1, 2, 3, 6]);
    let phases = g.r.range(1, 3);
    for _ in 0..phases {
        let n = g.r.range(2, 4 + 2 * nc.min(4));
        let adds = *g.r.pick(&[50, 65, 80, 100]);
        let searches = *g.r.pick(&[10, 30, 50]);
        let p = g.work(n, adds, searches, &[0]);
        g.plan.phases.push(p);
    }
    if g.r.pct(20) {
        let i = g.r.below(phases);
        g.plan.phases[i].snapshot = true;
    }
    if faulty {
        g.faults(0..phases, true);
        // Life goes on after the faults.
        let mut ops = vec![g.search_all(NsRef::Home(0))];
        for _ in 0..g.r.range(1, 3) {
            let add = g.r.pct(60);
            ops.push(g.modify(add, NsRef::Home(0)));
        }
        ops.push(g.search_all(NsRef::Home(0)));
        let p = g.sequential(ops);
        g.plan.phases.push(p);
    } else {
        g.benign();
    }
    g.plan
}

/// All clients fight for the same keywords.
pub fn contention(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "contention", seed);
    let n = *g.r.pick(&[1, 1, 2, 3, 10]);
    g.kws(n);
    let nc = *g.r.pick(&[4, 6, 8, 12]);
    g.clients(nc);
    g.pointers = 50;
    g.max_items = *g.r.pick(&[1, 3, 8]);
    for _ in 0..g.r.range(1, 2) {
        let mut clients = vec![];
        for c in 0..nc {
            let mut ops = vec![];
            for _ in 0..g.r.range(1, 2) {
                let op = if g.r.pct(15) {
                    g.search(NsRef::Home(0))
                } else {
                    let add = g.r.pct(75);
                    g.modify(add, NsRef::Home(0))
                };
                ops.push(op);
            }
            clients.push((c, ops));
        }
        g.plan.phases.push(Phase { clients, ..Phase::default() });
    }
    g.benign();
    g.plan
}

/// Pointers.
pub fn graph(prop: &str, profile: &str, seed: u64, interrupts: bool, faulty: bool) -> Plan {
    let mut g = base(prop, profile, seed);
    let n = match g.r.below(40) {
        0 => g.r.range(15, 70),
        1 => g.r.range(70, 160),
        _ => *g.r.pick(&[1, 2, 3, 5, 8, 14]),
    };
    if !faulty && !interrupts && g.r.below(if prop == "F07" { 300 } else { 2000 }) == 0 {
        return wide(g);
    }
    g.kws(n);
    let nc = if g.r.pct(60) { 1 } else { 3 };
    g.clients(nc);
    let shape = g.r.below(7);
    let mut edges: Vec<(usize, usize)> = vec![];
    match shape {
        0 => (1..n).for_each(|i| edges.push((i - 1, i))),
        1 => (0..n).for_each(|i| edges.push((i, (i + 1) % n))),
        2 => (0..n).for_each(|i| edges.push((i, i))),
        3 => {
            // Stacked diamonds.
            for i in 0..n {
                for j in [i + 1, i + 2] {
                    if j < n {
                        edges.push((i, j));
                    }
                }
            }
        }
        4 => {
            for i in 0..n {
                for j in 0..n {
                    if n <= 8 || g.r.pct(if n > 14 { 4 } else { 40 }) {
                        edges.push((i, j));
                    }
                }
            }
        }
        _ => {
            for _ in 0..g.r.range(1, 3 * n) {
                let e = (g.r.below(n), g.r.below(n));
                edges.push(e);
            }
        }
    }
    let mut items: Vec<(Iv, Vec<usize>)> = vec![];
    for (a, b) in &edges {
        items.push((Iv::P(g.plan.kws[*b].clone()), vec![*a]));
    }
    for _ in 0..g.r.below(2) {
        let b = g.r.bytes(9);
        items.push((Iv::P(b), vec![g.r.below(n)]));
    }
    for k in 0..n {
        if g.r.pct(70) {
            let d = g.data();
            items.push((Iv::D(d), vec![k]));
        }
    }
    if g.r.pct(40) {
        // Data that looks like a pointer: equal to a keyword.
        let d = g.plan.kws[g.r.below(n)].clone();
        if !d.is_empty() {
            items.push((Iv::D(d), vec![g.r.below(n)]));
        }
    }
    for (iv, kws) in &items {
        for k in kws {
            g.used[*k].push(iv.clone());
        }
    }
    g.r.shuffle(&mut items);
    let mut ops = vec![];
    let cut = g.r.range(0, items.len());
    for part in [&items[..cut], &items[cut..]] {
        if !part.is_empty() {
            ops.push(Op {
                id: g.id(),
                kind: OpKind::Mod { add: true, ns: NsRef::Home(0), items: part.to_vec() },
            });
        }
    }
    let p = g.sequential(ops);
    g.plan.phases.push(p);
    for round in 0..g.r.range(1, 2) {
        let mut clients: Vec<(usize, Vec<Op>)> = (0..nc).map(|c| (c, vec![])).collect();
        if round > 0 || nc > 1 || g.r.pct(30) {
            g.pointers = 500;
            for _ in 0..g.r.range(1, 3) {
                let add = g.r.pct(40);
                let op = g.modify(add, NsRef::Home(0));
                clients[0].1.push(op);
            }
        }
        for _ in 0..g.r.range(1, 3) {
            let mut op = g.search(NsRef::Home(0));
            if let OpKind::Search { stop, suspend, kws, .. } = &mut op.kind {
                if interrupts && g.r.pct(75) {
                    let n = g.r.range(1, 4) as u32;
                    *stop = if g.r.pct(60) { Stop::After(n) } else { Stop::ErrAt(n) };
                    if g.r.pct(30) {
                        *suspend = g.r.range(1, 20) as u64;
                    }
                }
                if g.r.pct(50) {
                    kws.truncate(1);
                }
            }
            let c = g.r.below(nc);
            clients[c].1.push(op);
        }
        clients.retain(|c| !c.1.is_empty());
        g.plan.phases.push(Phase { clients, ..Phase::default() });
    }
    if faulty {
        let n = g.plan.phases.len();
        g.faults(1..n, true);
    } else {
        g.benign();
    }
    g.plan
}

/// Very many pointers followed in the same round.
fn wide(mut g: G) -> Plan {
    let n = *g.r.pick(&[260, 520, 1030, 1100, 2100]);
    for i in 0..n {
        g.plan.kws.push(format!("keyword {i}").into_bytes());
    }
    g.used = vec![vec![]; n];
    g.clients(1);
    let roots = g.r.range(1, 2);
    let mut items: Vec<(Iv, Vec<usize>)> = vec![];
    for k in roots..n {
        items.push((Iv::P(g.plan.kws[k].clone()), vec![g.r.below(roots)]));
        items.push((Iv::D(format!("data {k}").into_bytes()), vec![k]));
    }
    let op = Op { id: g.id(), kind: OpKind::Mod { add: true, ns: NsRef::Home(0), items } };
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    let kws = (0..roots).collect();
    let op = Op { id: g.id(), kind: OpKind::Search { ns: NsRef::Home(0), kws, stop: Stop::Never, suspend: 0 } };
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    g.plan
}

/// One client is slow: others win every race against it.
pub fn starve(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "starve", seed);
    g.plan.dmax = 1;
    let n = g.r.range(1, 3);
    g.kws(n);
    let nc = g.r.range(2, 4);
    g.clients(nc + 1);
    g.max_items = *g.r.pick(&[1, 1, 3]);
    g.pointers = 50;
    let rounds = *g.r.pick(&[3, 10, 20, 40, 70]);
    let mut clients = vec![];
    // The victim, on every keyword, so that any winner makes it try again.
    let d = g.data();
    let all: Vec<usize> = (0..n).collect();
    g.used[0].push(Iv::D(d.clone()));
    let add = g.r.pct(70);
    let op = Op {
        id: g.id(),
        kind: OpKind::Mod { add, ns: NsRef::Home(0), items: vec![(Iv::D(d), all)] },
    };
    let victim = op.id;
    clients.push((0, vec![op]));
    for c in 1..=nc {
        let mut ops = vec![];
        for _ in 0..rounds {
            let add = g.r.pct(75);
            let op = g.modify(add, NsRef::Home(0));
            ops.push(op);
        }
        clients.push((c, ops));
    }
    g.plan.phases.push(Phase { clients, ..Phase::default() });
    let slow = g.r.range(4, 16) as u64;
    for call in 0..(6 * rounds as u32) {
        let mut f = Fate::new(victim, call, Act::Ok);
        f.slow = slow;
        g.plan.fates.push(f);
    }
    let op = g.search_all(NsRef::Home(0));
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    g.plan
}

/// Long chains, read while they grow.
pub fn long(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "long", seed);
    let n = g.r.range(1, 3);
    g.kws(n);
    g.clients(3);
    g.pointers = 20;
    g.max_items = 2;
    let start = *g.r.pick(&[5, 40, 90, 150, 300, 300, 500]);
    let heavy = g.r.pct(40);
    let mut ops = vec![];
    let mut left = start;
    while left > 0 {
        let m = if g.r.pct(30) { left } else { g.r.range(1, left) };
        let mut items = vec![];
        for _ in 0..m {
            let k = if g.r.pct(85) { 0 } else { g.r.below(n) };
            let iv = if g.r.pct(4) { g.value(k) } else { Iv::D(g.data()) };
            g.used[k].push(iv.clone());
            items.push((iv, vec![k]));
        }
        ops.push(Op { id: g.id(), kind: OpKind::Mod { add: true, ns: NsRef::Home(0), items } });
        left -= m;
    }
    let p = g.sequential(ops);
    g.plan.phases.push(p);
    let mut clients: Vec<(usize, Vec<Op>)> = (0..3).map(|c| (c, vec![])).collect();
    for _ in 0..g.r.range(2, 8) {
        let c = g.r.below(3);
        let op = if c == 0 || g.r.pct(20) {
            let mut op = g.search(NsRef::Home(0));
            if let OpKind::Search { kws, .. } = &mut op.kind {
                kws.insert(0, 0);
                kws.dedup();
            }
            op
        } else {
            let add = g.r.pct(70);
            if heavy || g.r.pct(25) {
                g.max_items = 60;
            }
            let op = g.modify(add, NsRef::Home(0));
            g.max_items = 2;
            op
        };
        clients[c].1.push(op);
    }
    clients.retain(|c| !c.1.is_empty());
    let snapshot = g.r.pct(20);
    g.plan.phases.push(Phase { clients, snapshot, ..Phase::default() });
    if g.r.pct(30) {
        g.faults(1..2, true);
    } else {
        g.benign();
    }
    if g.r.pct(50) {
        let rotate = g.r.pct(20);
        let to = g.fresh(Ns { key: 0, label: 0 }, rotate);
        let f = g.filter();
        let op = g.compact(to, 1.0, f);
        let p = g.sequential(vec![op]);
        g.plan.phases.push(p);
    }
    let op = g.search_all(NsRef::Home(0));
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    g.plan
}

/// A chain of pointers deeper than any call stack.
pub fn deep(prop: &str, seed: u64, depth: usize) -> Plan {
    let mut g = base(prop, "deep", seed);
    g.plan.mem = false;
    g.plan.dmax = 1;
    for i in 0..depth {
        g.plan.kws.push(format!("node {i:06}").into_bytes());
    }
    g.used = vec![vec![]; depth];
    g.clients(1);
    let mut items: Vec<(Iv, Vec<usize>)> =
        (1..depth).map(|i| (Iv::P(g.plan.kws[i].clone()), vec![i - 1])).collect();
    items.push((Iv::D(b"bottom".to_vec()), vec![depth - 1]));
    let add = Op { id: g.id(), kind: OpKind::Mod { add: true, ns: NsRef::Home(0), items } };
    let s = Op {
        id: g.id(),
        kind: OpKind::Search { ns: NsRef::Home(0), kws: vec![0], stop: Stop::Never, suspend: 0 },
    };
    let p = g.sequential(vec![add, s]);
    g.plan.phases.push(p);
    g.plan
}

/// Many values and keywords.
pub fn bulk(prop: &str, seed: u64, faulty: bool) -> Plan {
    let mut g = base(prop, "bulk", seed);
    g.big = true;
    let n = *g.r.pick(&[1, 3, 30, 100]);
    for i in 0..n {
        g.plan.kws.push(format!("bulk keyword {i}").into_bytes());
    }
    g.used = vec![vec![]; n];
    g.clients(2);
    let mut clients: Vec<(usize, Vec<Op>)> = vec![(0, vec![]), (1, vec![])];
    let total = *g.r.pick(&[10, 20, 20, 50, 100, 400]);
    for _ in 0..g.r.range(1, 3) {
        let mut items = vec![];
        for _ in 0..total {
            let d = g.data();
            let k = g.r.below(n);
            g.used[k].push(Iv::D(d.clone()));
            items.push((Iv::D(d), vec![k]));
        }
        let c = g.r.below(2);
        clients[c].1.push(Op { id: g.id(), kind: OpKind::Mod { add: true, ns: NsRef::Home(0), items } });
    }
    for _ in 0..g.r.range(1, 3) {
        let mut items = vec![];
        for _ in 0..g.r.range(1, total) {
            let k = g.r.below(n);
            if !g.used[k].is_empty() {
                let i = g.r.below(g.used[k].len());
                items.push((g.used[k][i].clone(), vec![k]));
            }
        }
        let c = g.r.below(2);
        clients[c].1.push(Op { id: g.id(), kind: OpKind::Mod { add: false, ns: NsRef::Home(0), items } });
        let s = g.search(NsRef::Home(0));
        clients[c].1.push(s);
    }
    clients.retain(|c| !c.1.is_empty());
    g.plan.phases.push(Phase { clients, snapshot: g.r.pct(30), ..Phase::default() });
    if faulty {
        g.faults(0..1, true);
    }
    if g.r.pct(50) {
        let to = g.fresh(Ns { key: 0, label: 0 }, false);
        let rate = g.rate();
        let f = g.filter();
        let op = g.compact(to, rate, f);
        let p = g.sequential(vec![op]);
        g.plan.phases.push(p);
        g.plan.batch = if g.r.pct(50) || g.plan.prop == "F28" { g.r.range(1, n + 1) } else { 0 };
    }
    g.plan
}

/// Orders of magnitude more of one thing.
pub fn huge(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "huge", seed);
    g.no_empty = prop == "F23";
    g.plan.trace = false;
    g.plan.dmax = 1;
    let m = g.r.range(700, 2600);
    let mode = g.r.below(6);
    let n = match mode {
        1 | 3 => m,
        _ => g.r.range(1, 3),
    };
    for i in 0..n {
        g.plan.kws.push(format!("huge keyword {i}").into_bytes());
    }
    if mode == 4 {
        let l = *g.r.pick(&[4096, 65_535, 65_536, 70_000]);
        let k = g.r.bytes(l);
        g.plan.kws.push(k);
    }
    g.used = vec![vec![]; g.plan.kws.len()];
    let n = g.plan.kws.len();
    g.plan.peers = vec![false, prop == "F23"];
    let mut items: Vec<(Iv, Vec<usize>)> = vec![];
    match mode {
        // Many values of few keywords.
        0 | 5 => {
            for i in 0..m {
                let k = if g.r.pct(90) { 0 } else { g.r.below(n) };
                items.push((Iv::D(format!("{i}").into_bytes()), vec![k]));
            }
        }
        // Many keywords.
        1 => {
            for k in 0..n {
                items.push((Iv::D(format!("value {k}").into_bytes()), vec![k]));
            }
        }
        // A long value.
        2 | 4 => {
            if g.r.below(10) == 0 {
                // More lines than 16 bits can count.
                let l = *g.r.pick(&[1_400_000, 5_300_000]);
                let v = g.r.bytes(l);
                items.push((Iv::D(v), vec![0]));
            } else {
                let l = *g.r.pick(&[4080, 20_000, 65_535, 65_536, 70_000]);
                let v = g.r.bytes(l);
                items.push((Iv::D(v), (0..n).collect()));
            }
            items.push((Iv::D(b"short".to_vec()), (0..n).collect()));
        }
        // A value of many keywords.
        _ => items.push((Iv::D(b"everywhere".to_vec()), (0..n).collect())),
    }
    for (v, ks) in &items {
        for k in ks {
            g.used[*k].push(v.clone());
        }
    }
    let add = Op { id: g.id(), kind: OpKind::Mod { add: true, ns: NsRef::Home(0), items: items.clone() } };
    let s1 = g.search_all(NsRef::Home(0));
    let mut gone: Vec<(Iv, Vec<usize>)> = vec![];
    let share = *g.r.pick(&[2, 50, 90]);
    for (v, ks) in &items {
        let ks: Vec<usize> = ks.iter().copied().filter(|_| g.r.pct(share)).collect();
        if !ks.is_empty() {
            gone.push((v.clone(), ks));
        }
    }
    let del = Op { id: g.id(), kind: OpKind::Mod { add: false, ns: NsRef::Home(0), items: gone } };
    let s2 = g.search_all(NsRef::Home(0));
    let ops = if g.r.pct(80) { vec![add, s1, del, s2] } else { vec![add, s1] };
    for op in ops {
        let c = g.r.below(2);
        g.plan.phases.push(Phase { clients: vec![(c, vec![op])], ..Phase::default() });
    }
    if g.r.pct(70) || matches!(prop, "F11" | "F15" | "F16") {
        g.plan.batch = if n > 100 && g.r.pct(30) { g.r.range(50, 500) } else { 0 };
        let rotate = g.r.pct(40);
        let to = g.fresh(Ns { key: 0, label: 0 }, rotate);
        let c = g.r.below(2);
        let rate = if g.plan.peers[c] { 1.0 } else { g.rate() };
        let f = if g.r.pct(60) { Filter::Keep } else { g.filter() };
        let op = g.compact(to, rate, f);
        g.plan.phases.push(Phase { clients: vec![(c, vec![op])], ..Phase::default() });
        let op = g.search_all(NsRef::Home(0));
        let p = g.sequential(vec![op]);
        g.plan.phases.push(p);
    }
    g.plan
}

/// Undisturbed compactions.
pub fn compact_clean(prop: &str, profile: &str, seed: u64) -> Plan {
    let mut g = base(prop, profile, seed);
    let n = g.size(&[1, 2, 3, 5, 8], 45);
    g.kws(n);
    g.clients(2);
    g.pointers = *g.r.pick(&[0, 150, 400]);
    g.max_items = if n > 8 { 3 * n } else { *g.r.pick(&[2, 4, 10]) };
    g.plan.batch = if g.r.pct(45) || g.plan.prop == "F28" { g.r.range(1, n + 1) } else { 0 };
    let mut ns = Ns { key: 0, label: 0 };
    let rounds = if g.r.pct(5) { g.r.range(4, 12) } else { g.r.range(1, 3) };
    let mut past: Vec<Ns> = vec![];
    for round in 0..rounds {
        let nb = if round == 0 { g.r.range(0, 6) } else { g.r.range(0, 3) };
        let mut p = g.build_phase(nb);
        if g.r.pct(10) {
            p.snapshot = true;
        }
        g.plan.phases.push(p);
        if g.r.pct(6) {
            let f = g.filter();
            let op = g.compact(ns, 1.0, f);
            let p = g.sequential(vec![op]);
            g.plan.phases.push(p);
        }
        let to = if !past.is_empty() && g.r.pct(20) {
            // Back to a namespace left earlier.
            *g.r.pick(&past)
        } else {
            let rotate = g.r.pct(35);
            g.fresh(ns, rotate)
        };
        past.retain(|x| *x != to);
        past.push(ns);
        let rate = g.rate();
        let filter = g.filter();
        let op = g.compact(to, rate, filter);
        let mut clients = vec![(0, vec![op])];
        if g.r.pct(40) {
            let s: Vec<Op> = (0..2)
                .map(|_| {
                    let w = if g.r.pct(50) { ns } else { to };
                    g.search(NsRef::At(w))
                })
                .collect();
            clients.push((1, s));
        }
        g.plan.phases.push(Phase { clients, ..Phase::default() });
        ns = to;
    }
    // The compacted index still works.
    let mut ops = vec![g.search_all(NsRef::Home(0))];
    for _ in 0..g.r.range(0, 3) {
        let add = g.r.pct(50);
        ops.push(g.modify(add, NsRef::Home(0)));
    }
    ops.push(g.search_all(NsRef::Home(0)));
    let p = g.sequential(ops);
    g.plan.phases.push(p);
    g.benign();
    g.plan
}

/// Repeated partial compactions of a small index.
pub fn compact_partial(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "partial", seed);
    let n = if g.r.pct(6) { g.r.range(5, 16) } else { g.r.range(1, 4) };
    g.kws(n);
    g.clients(1);
    g.max_items = if n > 4 { 20 } else { 4 };
    g.label();
    let nb = g.r.range(2, 6);
    let p = g.build_phase(nb);
    g.plan.phases.push(p);
    let rate = *g.r.pick(&[0.5, 0.1, 0.01, 1e-4, 1e-9]);
    // Each compaction draws at least one chain.
    let rounds = if n == 1 { 3 } else { ((21.0 + (n as f64).ln()) / -(1.0 - 1.0 / n as f64).ln()).ceil() as usize };
    for i in 0..rounds {
        let to = Ns { key: 0, label: (i + 1) % 2 };
        let op = g.compact(to, rate, Filter::Keep);
        let p = g.sequential(vec![op]);
        g.plan.phases.push(p);
    }
    g.plan
}

/// Compactions of a small share of many chains, with changes between them and failures.
pub fn compact_share(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "share", seed);
    let n = g.r.range(6, 40);
    g.kws(n);
    g.clients(1);
    g.max_items = 2 * n;
    g.pointers = *g.r.pick(&[0, 150]);
    g.label();
    g.plan.batch = if g.r.pct(35) || g.plan.prop == "F28" { g.r.range(1, n) } else { 0 };
    let nb = g.r.range(2, 6);
    let p = g.build_phase(nb);
    g.plan.phases.push(p);
    let faulty = g.r.pct(40);
    let calls = if g.plan.batch > 0 { 7 * (n / g.plan.batch + 1) } else { 7 };
    for i in 0..g.r.range(1, 4) {
        let rate = *g.r.pick(&[0.0, 1e-9, 1e-4, 0.01, 0.03, 0.05, 0.1]);
        let to = if faulty { g.fresh(Ns { key: 0, label: 0 }, false) } else { Ns { key: 0, label: (i + 1) % 2 } };
        let filter = if g.r.pct(60) { Filter::Keep } else { g.filter() };
        let op = g.compact(to, rate, filter);
        if faulty && g.r.pct(60) {
            let call = if g.r.pct(70) { g.r.range(2, 7) } else { g.r.below(calls + 3) };
            let act = if g.r.pct(60) { Act::Reject } else { g.act() };
            g.set_fate(Fate::new(op.id, call as u32, act));
        }
        let p = g.sequential(vec![op]);
        g.plan.phases.push(p);
        if g.r.pct(40) {
            let p = g.build_phase(2);
            g.plan.phases.push(p);
        }
    }
    g.benign();
    g.plan
}

/// Compactions disturbed by faults, re-run, followed by other compactions and changes.
pub fn compact_faulty(prop: &str, profile: &str, seed: u64, rotate_pct: u32) -> Plan {
    let mut g = base(prop, profile, seed);
    let n = g.size(&[1, 2, 3, 5], 30);
    g.kws(n);
    g.clients(3);
    g.pointers = *g.r.pick(&[0, 150]);
    if n > 5 {
        g.max_items = 2 * n;
    }
    g.plan.batch = if g.r.pct(35) || g.plan.prop == "F28" { g.r.range(1, n) } else { 0 };
    g.plan.timeout = 2 * g.plan.dmax + 5 + g.r.range(0, 30) as u64;
    let nb = g.r.range(1, 5);
    let p = g.build_phase(nb);
    g.plan.phases.push(p);
    let old = Ns { key: 0, label: 0 };
    let rotate = g.r.pct(rotate_pct);
    let to = g.fresh(old, rotate);
    let rate = g.rate();
    let filter = if g.r.pct(12) {
        let b = g.batches();
        g.failing(b)
    } else {
        g.filter()
    };
    let op = g.compact(to, rate, filter.clone());
    let cid = op.id;
    let mut clients = vec![(0, vec![op])];
    if g.r.pct(50) {
        let s: Vec<Op> = (0..g.r.range(1, 4))
            .map(|_| {
                let w = if g.r.pct(50) { old } else { to };
                g.search(NsRef::At(w))
            })
            .collect();
        clients.push((1, s));
    }
    let prefer_new = g.r.pct(50);
    g.plan.phases.push(Phase { clients, prefer_new, ..Phase::default() });
    let calls = if g.plan.batch > 0 { 7 * (n / g.plan.batch + 1) } else { 7 };
    for _ in 0..*g.r.pick(&[1, 1, 1, 1, 2, 3]) {
        let call = if g.r.pct(70) { g.r.range(2, 7) } else { g.r.below(calls + 3) };
        let act = if g.r.pct(35) { Act::Reject } else { g.act() };
        let mut f = Fate::new(cid, call as u32, act);
        f.shuffle = g.r.pct(20);
        g.set_fate(f);
    }
    if g.r.pct(15) {
        let t = g.r.range(1, 16 * g.plan.dmax as usize + 10) as u64;
        g.plan.phases[1].restarts.push(t);
    }
    // Follow-up: changes, then other compactions, on healthy storage.
    for _ in 0..g.r.range(1, 2) {
        if g.r.pct(60) {
            let mut ops = vec![g.search_all(NsRef::Home(0))];
            for _ in 0..g.r.range(1, 3) {
                let add = g.r.pct(65);
                ops.push(g.modify(add, NsRef::Home(0)));
            }
            ops.push(g.search_all(NsRef::Home(0)));
            let p = g.sequential(ops);
            g.plan.phases.push(p);
        }
        let again = g.r.pct(40);
        let to2 = if again { to } else { g.fresh(old, false) };
        let rate = g.rate();
        let filter = if again && g.r.pct(50) { filter.clone() } else { g.filter() };
        let op = g.compact(to2, rate, filter);
        let id2 = op.id;
        let p = g.sequential(vec![op]);
        g.plan.phases.push(p);
        if again && g.r.pct(30) {
            let call = g.r.range(2, 7) as u32;
            let act = if g.r.pct(35) { Act::Reject } else { g.act() };
            g.set_fate(Fate::new(id2, call, act));
        }
    }
    let fresh = g.fresh(old, false);
    let op = g.compact(fresh, 1.0, Filter::Keep);
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    let op = g.search_all(NsRef::Home(0));
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    g.plan
}

/// A compaction stopped half way, changes under the new label, and the same compaction again.
pub fn rerun(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "rerun", seed);
    let n = g.size(&[1, 2, 3, 5], 20);
    g.kws(n);
    if n > 5 {
        g.max_items = 2 * n;
    }
    g.clients(3);
    g.pointers = *g.r.pick(&[0, 150]);
    g.plan.batch = if g.r.pct(30) || g.plan.prop == "F28" { g.r.range(1, n) } else { 0 };
    g.plan.timeout = 2 * g.plan.dmax + 5 + g.r.range(0, 30) as u64;
    let nb = g.r.range(1, 4);
    let p = g.build_phase(nb);
    g.plan.phases.push(p);
    let old = Ns { key: 0, label: 0 };
    let to = g.fresh(old, false);
    let rates = [0.0, 0.0, 1e-6, 0.1, 0.5, 1.0];
    let calls = if g.plan.batch > 0 { 7 * (n / g.plan.batch + 1) } else { 7 };
    for round in 0..g.r.range(1, 2) {
        let rate = *g.r.pick(&rates);
        let filter = if g.r.pct(70) { Filter::Keep } else { g.filter() };
        let id = g.id();
        let op = Op { id, kind: OpKind::Compact { from: NsRef::At(old), to, rate, filter } };
        let mut p = g.sequential(vec![op]);
        p.prefer_new = true;
        g.plan.phases.push(p);
        if round == 0 || g.r.pct(30) {
            // Mostly once the new entries are there.
            let call = if g.r.pct(70) { g.r.range(4, 7) } else { g.r.below(calls + 2) };
            let act = if g.r.pct(60) {
                *g.r.pick(&[Act::CrashApplied, Act::CrashBefore, Act::CrashSent, Act::Reject])
            } else {
                g.act()
            };
            g.set_fate(Fate::new(id, call as u32, act));
        }
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 4) {
            let add = g.r.pct(65);
            ops.push(g.modify(add, NsRef::At(to)));
        }
        ops.push(g.search_all(NsRef::At(to)));
        let mut p = g.sequential(ops);
        p.prefer_new = true;
        g.plan.phases.push(p);
    }
    let rate = *g.r.pick(&rates);
    let filter = if g.r.pct(80) { Filter::Keep } else { g.filter() };
    let op = Op { id: g.id(), kind: OpKind::Compact { from: NsRef::At(old), to, rate, filter } };
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    let op = g.search_all(NsRef::At(to));
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    let fresh = g.fresh(old, false);
    let rate = g.rate();
    let op = Op { id: g.id(), kind: OpKind::Compact { from: NsRef::At(to), to: fresh, rate, filter: Filter::Keep } };
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    let op = g.search_all(NsRef::At(fresh));
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    g.plan
}

/// Refused compactions: a single write is refused by storage, or the filter fails.
pub fn compact_refused(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "refused", seed);
    let n = g.size(&[1, 2, 3, 6], 40);
    g.kws(n);
    if n > 6 {
        g.max_items = 2 * n;
    }
    g.clients(2);
    g.pointers = 100;
    g.plan.batch = if g.r.pct(35) || g.plan.prop == "F28" { g.r.range(1, n) } else { 0 };
    g.plan.timeout = 2 * g.plan.dmax + 5 + g.r.range(0, 30) as u64;
    let nb = g.r.range(1, 5);
    let p = g.build_phase(nb);
    g.plan.phases.push(p);
    let old = Ns { key: 0, label: 0 };
    let rotate = g.r.pct(30);
    let kind = g.r.below(6);
    let to = if kind == 0 { old } else { g.fresh(old, rotate && kind != 1) };
    if kind == 1 {
        // Part of the target is in use.
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 2) {
            ops.push(g.modify(true, NsRef::At(to)));
        }
        let p = g.sequential(ops);
        g.plan.phases.push(p);
    }
    let rate = g.rate();
    let filter = if kind == 2 {
        let b = g.batches();
        g.failing(b)
    } else {
        g.filter()
    };
    let op = g.compact(to, rate, filter);
    let cid = op.id;
    let mut clients = vec![(0, vec![op])];
    if g.r.pct(30) {
        let s = g.search(NsRef::At(old));
        clients.push((1, vec![s]));
    }
    g.plan.phases.push(Phase { clients, ..Phase::default() });
    if kind >= 3 {
        let batches = n.checked_div(g.plan.batch).unwrap_or(0);
        let b = g.r.range(0, batches);
        // dump, then fetch, fetch, insert, insert, delete, delete for each batch.
        let call = 3 + 6 * b + g.r.below(2);
        let act = *g.r.pick(&[Act::Reject, Act::Reject, Act::Reject, Act::RepLost, Act::RepLost, Act::ReqLost]);
        g.set_fate(Fate::new(cid, call as u32, act));
    }
    let mut ops = vec![g.search_all(NsRef::Home(0))];
    let add = g.r.pct(60);
    ops.push(g.modify(add, NsRef::Home(0)));
    ops.push(g.search_all(NsRef::Home(0)));
    let p = g.sequential(ops);
    g.plan.phases.push(p);
    let to = g.fresh(old, false);
    let op = g.compact(to, 1.0, Filter::Keep);
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    g.plan
}

/// Compactions racing towards the same target.
pub fn compact_race(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "race", seed);
    let n = g.size(&[1, 2, 3, 5], 24);
    g.kws(n);
    if n > 5 {
        g.max_items = 2 * n;
    }
    g.clients(4);
    g.pointers = 100;
    g.plan.batch = if g.r.pct(25) || g.plan.prop == "F28" { g.r.range(1, n) } else { 0 };
    let nb = g.r.range(1, 4);
    let p = g.build_phase(nb);
    g.plan.phases.push(p);
    let old = Ns { key: 0, label: 0 };
    let to = g.fresh(old, false);
    let filter = if g.r.pct(80) { Filter::Keep } else { g.filter() };
    let n_comp = if g.r.pct(85) { 2 } else { 3 };
    let mut clients = vec![];
    let mut ids = vec![];
    for c in 0..n_comp {
        let rate = g.rate();
        let op = g.compact(to, rate, filter.clone());
        ids.push(op.id);
        clients.push((c, vec![op]));
    }
    if n_comp < 4 && g.r.pct(60) {
        let s: Vec<Op> = (0..g.r.range(1, 5))
            .map(|_| {
                let w = if g.r.pct(50) { old } else { to };
                g.search(NsRef::At(w))
            })
            .collect();
        clients.push((3, s));
    }
    g.plan.phases.push(Phase { clients, ..Phase::default() });
    if g.r.pct(50) {
        g.plan.timeout = 2 * g.plan.dmax + 5 + g.r.range(0, 30) as u64;
        let op = *g.r.pick(&ids);
        let call = g.r.range(1, 8) as u32;
        let act = match g.act() {
            Act::Late(_) | Act::Dup(_) => Act::Reject,
            a => a,
        };
        g.set_fate(Fate::new(op, call, act));
    } else {
        for id in ids {
            let mut f = Fate::new(id, g.r.range(0, 6) as u32, Act::Ok);
            f.slow = g.r.range(0, 6 * g.plan.dmax as usize) as u64;
            f.shuffle = true;
            g.set_fate(f);
        }
    }
    let mut ops = vec![g.search_all(NsRef::Home(0))];
    let add = g.r.pct(60);
    ops.push(g.modify(add, NsRef::Home(0)));
    ops.push(g.search_all(NsRef::Home(0)));
    let p = g.sequential(ops);
    g.plan.phases.push(p);
    if g.r.pct(50) {
        let to = g.fresh(old, false);
        let op = g.compact(to, 1.0, Filter::Keep);
        let p = g.sequential(vec![op]);
        g.plan.phases.push(p);
    }
    g.plan
}

/// A compaction while the index is modified.
pub fn writers(prop: &str, seed: u64, old_too: bool) -> Plan {
    let mut g = base(prop, "writers", seed);
    let n = g.size(&[1, 2, 3, 5], 16);
    g.kws(n);
    if n > 5 {
        g.max_items = 2 * n;
    }
    g.clients(4);
    g.pointers = *g.r.pick(&[0, 150]);
    g.plan.batch = if g.r.pct(25) || g.plan.prop == "F28" { g.r.range(1, n) } else { 0 };
    let nb = g.r.range(1, 4);
    let p = g.build_phase(nb);
    g.plan.phases.push(p);
    // Keywords nobody used before.
    let known = g.plan.kws.len();
    if g.r.pct(50) {
        let n = g.r.range(1, 2);
        g.kws(n);
    }
    let old = Ns { key: 0, label: 0 };
    let olds = if old_too { *g.r.pick(&[0, 50, 100]) } else { 0 };
    // Tables holding entries of other keys cannot be compacted.
    let rotate = olds == 0 && g.r.pct(10);
    let to = g.fresh(old, rotate);
    let third = if rotate || g.r.pct(70) { None } else { Some(Ns { key: 0, label: g.label() }) };
    let rate = g.rate();
    let filter = if olds == 0 && g.r.pct(60) { g.filter() } else { Filter::Keep };
    let op = g.compact(to, rate, filter);
    let cid = op.id;
    let mut clients = vec![(0, vec![op])];
    let mut writers = vec![];
    for c in 1..=g.r.range(1, 2) {
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 4) {
            let ns = match third {
                Some(t) if g.r.pct(30) => t,
                _ if g.r.pct(olds) => old,
                _ => to,
            };
            if g.r.pct(25) {
                ops.push(g.search(NsRef::At(ns)));
            }
            let add = g.r.pct(65);
            let mut op = g.modify(add, NsRef::At(ns));
            if g.plan.kws.len() > known && g.r.pct(50) {
                if let OpKind::Mod { items, .. } = &mut op.kind {
                    for (_, kws) in items {
                        for k in kws.iter_mut() {
                            *k = known + *k % (g.plan.kws.len() - known);
                        }
                        kws.sort_unstable();
                        kws.dedup();
                    }
                }
            }
            writers.push(op.id);
            ops.push(op);
        }
        clients.push((c, ops));
    }
    if g.r.pct(50) {
        let s: Vec<Op> = (0..g.r.range(1, 5))
            .map(|_| {
                let w = if g.r.pct(50) { old } else { to };
                g.search(NsRef::At(w))
            })
            .collect();
        clients.push((3, s));
    }
    g.plan.phases.push(Phase { clients, ..Phase::default() });
    let long = 8 * g.plan.dmax as usize;
    for id in &writers {
        // Mostly once the new entries are there.
        let mut f = Fate::new(*id, 0, Act::Ok);
        f.slow = if g.r.pct(70) { g.r.range(0, 2 * long) as u64 } else { 0 };
        f.shuffle = g.r.pct(20);
        g.set_fate(f);
        if g.r.pct(40) {
            let mut f = Fate::new(*id, g.r.range(1, 3) as u32, Act::Ok);
            f.slow = g.r.range(0, long) as u64;
            g.set_fate(f);
        }
    }
    if g.r.pct(60) {
        for _ in 0..g.r.range(1, 3) {
            let mut f = Fate::new(cid, g.r.range(1, 7) as u32, Act::Ok);
            f.slow = g.r.range(1, 2 * long) as u64;
            g.set_fate(f);
        }
    }
    if g.r.pct(35) {
        g.plan.timeout = 4 * long as u64 + 40;
        if g.r.pct(50) {
            let call = g.r.range(1, 8) as u32;
            let act = *g.r.pick(&[Act::Reject, Act::CrashBefore, Act::CrashSent, Act::CrashApplied, Act::ReqLost]);
            g.plan.fates.retain(|f| !(f.op == cid && f.call == call));
            g.set_fate(Fate::new(cid, call, act));
        } else {
            let id = *g.r.pick(&writers);
            let call = g.r.range(0, 3) as u32;
            let act = g.act();
            g.plan.fates.retain(|f| !(f.op == id && f.call == call));
            g.set_fate(Fate::new(id, call, act));
        }
    }
    // Everything is usable afterwards.
    let fresh = g.fresh(old, false);
    let op = g.compact(fresh, 1.0, Filter::Keep);
    let p = g.sequential(vec![op]);
    g.plan.phases.push(p);
    let mut ops = vec![];
    for _ in 0..g.r.range(1, 3) {
        let add = g.r.pct(65);
        ops.push(g.modify(add, NsRef::Home(0)));
    }
    ops.push(g.search_all(NsRef::Home(0)));
    let p = g.sequential(ops);
    g.plan.phases.push(p);
    g.plan
}

/// Several namespaces in the same tables.
pub fn namespaces(prop: &str, profile: &str, seed: u64) -> Plan {
    let mut g = base(prop, profile, seed);
    let n = g.size(&[1, 2, 3, 4], 30);
    g.kws(n);
    if n > 4 {
        g.max_items = 2 * n;
    }
    g.clients(3);
    g.pointers = 150;
    let many_keys = g.r.pct(40);
    let mut homes = vec![Ns { key: 0, label: 0 }];
    for _ in 0..g.r.range(1, 2) {
        let ns = if many_keys && g.r.pct(70) {
            let key = g.key();
            let label = if g.r.pct(60) { 0 } else { g.label() };
            Ns { key, label }
        } else {
            Ns { key: 0, label: g.label() }
        };
        homes.push(ns);
    }
    g.plan.homes = homes.clone();
    let idx: Vec<usize> = (0..homes.len()).collect();
    let one_key = homes.iter().all(|h| h.key == 0);
    for _ in 0..g.r.range(1, 2) {
        let n = g.r.range(3, 8);
        let p = g.work(n, 70, 25, &idx);
        g.plan.phases.push(p);
    }
    if one_key {
        let rounds = g.r.range(1, 2);
        for _ in 0..rounds {
            let to = Ns { key: 0, label: g.label() };
            let rate = g.rate();
            let filter = g.filter();
            let which = g.r.below(homes.len());
            let op = Op {
                id: g.id(),
                kind: OpKind::Compact { from: NsRef::Home(which), to, rate, filter },
            };
            let cid = op.id;
            let others: Vec<usize> = idx.iter().copied().filter(|i| *i != which).collect();
            let mut clients = vec![(0, vec![op])];
            if g.r.pct(50) {
                let mut ops = vec![];
                for _ in 0..g.r.range(1, 3) {
                    let ns = NsRef::Home(*g.r.pick(&others));
                    let op = if g.r.pct(60) {
                        let add = g.r.pct(70);
                        g.modify(add, ns)
                    } else {
                        g.search(ns)
                    };
                    ops.push(op);
                }
                clients.push((1, ops));
            }
            g.plan.batch = if g.r.pct(30) || g.plan.prop == "F28" { g.r.range(1, 3) } else { 0 };
            let prefer_new = g.r.pct(50);
            g.plan.phases.push(Phase { clients, prefer_new, ..Phase::default() });
            if g.r.pct(30) {
                g.plan.timeout = 2 * g.plan.dmax + 5 + g.r.range(0, 30) as u64;
                let call = g.r.range(1, 7) as u32;
                let act = g.act();
                g.set_fate(Fate::new(cid, call, act));
            }
        }
        let p = g.work(4, 60, 50, &idx);
        g.plan.phases.push(p);
    } else if g.r.pct(50) {
        // Compacting is refused when the tables hold entries of other keys: it must change nothing.
        let label = g.label();
        let op = Op {
            id: g.id(),
            kind: OpKind::Compact {
                from: NsRef::Home(0),
                to: Ns { key: 0, label },
                rate: 1.0,
                filter: Filter::Keep,
            },
        };
        let p = g.sequential(vec![op]);
        g.plan.phases.push(p);
    }
    g.plan
}

/// Altered bytes at rest or in transit.
pub fn corruption(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "corrupt", seed);
    let n = g.size(&[1, 2, 3, 4], 24);
    g.kws(n);
    if n > 4 {
        g.max_items = 2 * n;
    }
    g.clients(2);
    g.pointers = 150;
    let nb = g.r.range(1, 4);
    let p = g.build_phase(nb);
    g.plan.phases.push(p);
    for _ in 0..g.r.range(1, 3) {
        let mut clients: Vec<(usize, Vec<Op>)> = vec![(0, vec![]), (1, vec![])];
        let mut ids = vec![];
        if g.r.pct(30) {
            let to = Ns { key: 0, label: g.label() };
            let rate = g.rate();
            let f = g.filter();
            let op = g.compact(to, rate, f);
            ids.push(op.id);
            clients[0].1.push(op);
        } else {
            for _ in 0..g.r.range(1, 4) {
                let op = if g.r.pct(50) {
                    g.search(NsRef::Home(0))
                } else {
                    let add = g.r.pct(60);
                    g.modify(add, NsRef::Home(0))
                };
                ids.push(op.id);
                let c = g.r.below(2);
                clients[c].1.push(op);
            }
        }
        clients.retain(|c| !c.1.is_empty());
        let mut phase = Phase { clients, ..Phase::default() };
        if g.r.pct(50) {
            phase.rot = Some((if g.r.pct(50) { Table::Et } else { Table::Ct }, g.r.next() >> 1));
        } else {
            for _ in 0..g.r.range(1, 2) {
                let op = *g.r.pick(&ids);
                let call = g.r.below(4) as u32;
                let mut f = Fate::new(op, call, Act::Ok);
                f.corrupt = Some(g.r.next() >> 1);
                g.set_fate(f);
            }
        }
        g.plan.phases.push(phase);
        let mut ops = vec![g.search_all(NsRef::Home(0))];
        if g.r.pct(50) {
            let add = g.r.pct(70);
            ops.push(g.modify(add, NsRef::Home(0)));
        }
        let p = g.sequential(ops);
        g.plan.phases.push(p);
    }
    g.plan
}

/// Clients of this version and of the pinned release together.
pub fn mixed(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "mixed", seed);
    g.no_empty = true;
    let n = g.size(&[1, 2, 3, 4, 5], 40);
    g.kws(n);
    let nc = g.r.range(2, 4);
    g.plan.peers = (0..nc).map(|i| i % 2 == 0).collect();
    g.pointers = *g.r.pick(&[0, 150, 400]);
    g.max_items = if n > 8 || g.r.pct(3) { g.r.range(30, 120) } else { *g.r.pick(&[2, 4, 8]) };
    let mut ns = Ns { key: 0, label: 0 };
    let faulty = g.r.pct(30);
    for _ in 0..g.r.range(1, 3) {
        let k = g.r.range(3, 8);
        let p = g.work(k, 70, 35, &[0]);
        g.plan.phases.push(p);
        if faulty {
            let i = g.plan.phases.len();
            g.faults(i - 1..i, true);
        }
        if g.r.pct(50) {
            let rotate = g.r.pct(40);
            let to = g.fresh(ns, rotate);
            let f = g.filter();
            let c = g.r.below(nc);
            // The pinned release mishandles partial compactions.
            let rate = if g.plan.peers[c] { 1.0 } else { g.rate() };
            let op = g.compact(to, rate, f);
            let p = Phase { clients: vec![(c, vec![op])], ..Phase::default() };
            g.plan.phases.push(p);
            ns = to;
        }
    }
    if !faulty {
        g.benign();
    }
    g.plan
}

/// Histories whose modifications can be flipped.
pub fn twin(prop: &str, seed: u64) -> Plan {
    let faulty = seed % 3 == 0;
    let mut g = base(prop, "twin", seed);
    let n = if g.r.pct(5) { g.r.range(5, 40) } else { g.r.range(1, 4) };
    g.kws(n);
    let nc = g.r.range(1, 4);
    g.clients(nc);
    // Pointers change what searches do: either these or those.
    let searches = if g.r.pct(75) { 25 } else { 0 };
    g.pointers = if searches == 0 { *g.r.pick(&[0, 200, 600]) } else { 0 };
    g.max_items = *g.r.pick(&[1, 3, 8]);
    let phases = g.r.range(1, 2);
    for _ in 0..phases {
        let k = g.r.range(2, 8);
        let adds = *g.r.pick(&[0, 50, 80, 100]);
        let p = g.work(k, adds, searches, &[0]);
        g.plan.phases.push(p);
    }
    if faulty {
        g.faults(0..phases, true);
    }
    g.plan
}

/// Threads on the raw store.
pub fn memops(prop: &str, seed: u64) -> Plan {
    let mut g = base(prop, "memops", seed);
    let n = g.r.range(1, 3);
    for i in 0..n {
        g.plan.kws.push(format!("token {i}").into_bytes());
    }
    g.plan.dmax = *g.r.pick(&[100, 60, 30]);
    let nt = g.r.range(2, 4);
    g.clients(nt);
    let snaps = g.r.pct(40);
    for phase in 0..g.r.range(1, 3) {
        let per = if nt == 2 { g.r.range(2, 5) } else { g.r.range(1, 3) };
        let mut clients = vec![];
        let setup = phase == 0 && g.r.pct(50);
        for c in 0..if setup { 1 } else { nt } {
            let mut ops = vec![];
            for _ in 0..per {
                let code = match g.r.below(20) {
                    0..=1 => 0,
                    2..=6 => 1,
                    7..=11 => 2,
                    12..=14 => 3,
                    15..=17 => 4,
                    18 => 6,
                    _ if snaps => 5,
                    _ => 1,
                };
                let code = if setup { 3 } else { code };
                let sel = g.r.next() >> 8;
                ops.push(Op { id: g.id(), kind: OpKind::Raw { code, sel } });
            }
            clients.push((c, ops));
        }
        g.plan.phases.push(Phase { clients, ..Phase::default() });
    }
    g.plan
}

/// Threads on indexes over one bundled store.
pub fn threads(prop: &str, profile: &str, seed: u64) -> Plan {
    let mut g = base(prop, profile, seed);
    g.plan.mem = true;
    let n = *g.r.pick(&[1, 1, 2, 3]);
    g.kws(n);
    g.plan.dmax = *g.r.pick(&[100, 60, 30]);
    let nt = g.r.range(2, 4);
    g.clients(nt);
    g.pointers = *g.r.pick(&[0, 200]);
    g.max_items = *g.r.pick(&[1, 2, 4]);
    let snaps = profile == "snap";
    for _ in 0..g.r.range(1, 2) {
        let mut clients = vec![];
        for c in 0..nt {
            let mut ops = vec![];
            for _ in 0..g.r.range(1, 3) {
                let op = if g.r.pct(40) {
                    g.search(NsRef::Home(0))
                } else {
                    let add = g.r.pct(65);
                    g.modify(add, NsRef::Home(0))
                };
                ops.push(op);
                if snaps && g.r.pct(25) {
                    ops.push(Op { id: g.id(), kind: OpKind::Raw { code: 5, sel: 0 } });
                }
            }
            clients.push((c, ops));
        }
        g.plan.phases.push(Phase { clients, ..Phase::default() });
    }
    if profile == "threadc" {
        let old = Ns { key: 0, label: 0 };
        let to = g.fresh(old, false);
        let rate = g.rate();
        let f = g.filter();
        let op = g.compact(to, rate, f.clone());
        let mut clients = vec![(0, vec![op])];
        if g.r.pct(40) {
            let op = g.compact(to, 1.0, f);
            clients.push((1, vec![op]));
        }
        for c in clients.len()..nt {
            let s: Vec<Op> = (0..g.r.range(1, 3))
                .map(|_| {
                    let w = if g.r.pct(50) { old } else { to };
                    g.search(NsRef::At(w))
                })
                .collect();
            clients.push((c, s));
        }
        g.plan.phases.push(Phase { clients, ..Phase::default() });
    }
    g.plan
}
