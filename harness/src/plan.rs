//! A plan is everything that decides a run: configuration, scripts of the clients and faults.
//! It is generated from a seed, can be shrunk, and is written to (and read from) replay files.

use crate::types::{hex, unhex, Bytes, Iv, Table};

/// A namespace of the index: one key and one label (indices in the plan).
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ns {
    pub key: usize,
    pub label: usize,
}

/// Namespace used by an operation: explicit, or wherever the logical index currently lives.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NsRef {
    Home(usize),
    At(Ns),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    Never,
    After(u32),
    ErrAt(u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Filter {
    Keep,
    Drop(Vec<Bytes>),
    Extra(Vec<Bytes>),
    DropAll,
    Fail,
    /// Fails at its n-th call, keeps everything before.
    FailAt(u32),
}

impl Filter {
    /// Has a filter called `calls` times failed?
    pub fn failed(&self, calls: usize) -> bool {
        match self {
            Filter::Fail => calls > 0,
            Filter::FailAt(n) => calls >= *n as usize,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum OpKind {
    Mod {
        add: bool,
        ns: NsRef,
        items: Vec<(Iv, Vec<usize>)>,
    },
    Search {
        ns: NsRef,
        kws: Vec<usize>,
        stop: Stop,
        suspend: u64,
    },
    Compact {
        from: NsRef,
        to: Ns,
        rate: f64,
        filter: Filter,
    },
    /// Direct use of the bundled store by a thread.
    Raw { code: u8, sel: u64 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub id: u32,
    pub kind: OpKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Ok,
    ReqLost,
    RepLost,
    Reject,
    Late(u64),
    Dup(u64),
    CrashBefore,
    /// The code sending the request panics; other users of the same instance go on.
    Panic,
    CrashSent,
    CrashApplied,
}

impl Act {
    pub fn name(self) -> &'static str {
        match self {
            Act::Ok => "ok",
            Act::ReqLost => "request_lost",
            Act::RepLost => "reply_lost",
            Act::Reject => "storage_error",
            Act::Late(_) => "applied_after_timeout",
            Act::Dup(_) => "duplicated_request",
            Act::CrashBefore => "crash_before_request",
            Act::Panic => "panic_in_request",
            Act::CrashSent => "crash_request_in_flight",
            Act::CrashApplied => "crash_after_applied",
        }
    }
    pub fn is_crash(self) -> bool {
        matches!(self, Act::CrashBefore | Act::Panic | Act::CrashSent | Act::CrashApplied)
    }
}

/// What happens to the `call`-th storage request of operation `op`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fate {
    pub op: u32,
    pub call: u32,
    pub act: Act,
    pub shuffle: bool,
    pub duprow: bool,
    /// Alters one value of the reply (selects the row, the byte and the kind of alteration).
    pub corrupt: Option<u64>,
    /// Additional delay.
    pub slow: u64,
}

impl Fate {
    pub fn new(op: u32, call: u32, act: Act) -> Self {
        Self { op, call, act, shuffle: false, duprow: false, corrupt: None, slow: 0 }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Phase {
    pub clients: Vec<(usize, Vec<Op>)>,
    /// Times at which storage restarts, losing the requests in flight.
    pub restarts: Vec<u64>,
    /// (client, from, to): requests of the client only reach storage after `to`.
    pub partitions: Vec<(usize, u64, u64)>,
    /// Bit rot at rest during this phase: table and selector of the row, byte and bit.
    pub rot: Option<(Table, u64)>,
    /// After an interrupted compaction that left both namespaces readable: continue in the new one.
    pub prefer_new: bool,
    /// Save the store at the end of the phase and restore it from the snapshot.
    pub snapshot: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub profile: String,
    pub seed: u64,
    /// Storage: reference model of the contract (false) or the bundled store (true).
    pub mem: bool,
    pub batch: usize,
    pub dmax: u64,
    pub timeout: u64,
    /// All clients of the same version share one index instance.
    pub share: bool,
    /// Traces are read by a logging application.
    pub trace: bool,
    pub keys: Vec<Bytes>,
    pub labels: Vec<Bytes>,
    pub kws: Vec<Bytes>,
    /// Version of each client: false = current tree, true = pinned release.
    pub peers: Vec<bool>,
    /// Initial namespace of each logical index.
    pub homes: Vec<Ns>,
    pub phases: Vec<Phase>,
    pub fates: Vec<Fate>,
}

impl Plan {
    pub fn n_ops(&self) -> usize {
        self.phases.iter().flat_map(|p| &p.clients).map(|(_, o)| o.len()).sum()
    }

    pub fn to_text(&self) -> String {
        use std::fmt::Write;
        let mut s = String::new();
        let w = &mut s;
        let _ = writeln!(w, "findex-sim-plan 1");
        let _ = writeln!(w, "prop {}", self.prop);
        let _ = writeln!(w, "profile {}", self.profile);
        let _ = writeln!(w, "seed {}", self.seed);
        let _ = writeln!(
            w,
            "config mem={} batch={} dmax={} timeout={} share={} trace={}",
            u8::from(self.mem),
            self.batch,
            self.dmax,
            self.timeout,
            u8::from(self.share),
            u8::from(self.trace)
        );
        for k in &self.keys {
            let _ = writeln!(w, "key {}", hex(k));
        }
        for k in &self.labels {
            let _ = writeln!(w, "label {}", hex(k));
        }
        for k in &self.kws {
            let _ = writeln!(w, "keyword {}", hex(k));
        }
        for p in &self.peers {
            let _ = writeln!(w, "peer {}", if *p { "base" } else { "cur" });
        }
        for h in &self.homes {
            let _ = writeln!(w, "index {} {}", h.key, h.label);
        }
        for p in &self.phases {
            let _ = writeln!(
                w,
                "phase prefer_new={} snapshot={}",
                u8::from(p.prefer_new),
                u8::from(p.snapshot)
            );
            for t in &p.restarts {
                let _ = writeln!(w, "  restart {t}");
            }
            for (c, a, b) in &p.partitions {
                let _ = writeln!(w, "  partition {c} {a} {b}");
            }
            if let Some((t, x)) = &p.rot {
                let _ = writeln!(w, "  rot {} {x}", t.idx());
            }
            for (c, ops) in &p.clients {
                let _ = writeln!(w, "  client {c}");
                for op in ops {
                    let _ = writeln!(w, "    {}", op_text(op));
                }
            }
        }
        for f in &self.fates {
            let _ = writeln!(
                w,
                "fate {} {} {} {} shuffle={} duprow={} corrupt={} slow={}",
                f.op,
                f.call,
                f.act.name(),
                match f.act {
                    Act::Late(d) | Act::Dup(d) => d,
                    _ => 0,
                },
                u8::from(f.shuffle),
                u8::from(f.duprow),
                f.corrupt.map_or("-".to_string(), |c| c.to_string()),
                f.slow
            );
        }
        s
    }

    pub fn from_text(text: &str) -> Result<Plan, String> {
        let mut p = Plan {
            prop: String::new(),
            profile: String::new(),
            seed: 0,
            mem: false,
            batch: 0,
            dmax: 1,
            timeout: 1000,
            share: false,
            trace: false,
            keys: vec![],
            labels: vec![],
            kws: vec![],
            peers: vec![],
            homes: vec![],
            phases: vec![],
            fates: vec![],
        };
        let num = |s: &str| -> Result<u64, String> { s.parse::<u64>().map_err(|e| format!("{s}: {e}")) };
        let kv = |s: &str| -> Result<u64, String> {
            num(s.split_once('=').ok_or_else(|| format!("bad field {s}"))?.1)
        };
        for line in text.lines() {
            let t: Vec<&str> = line.split_whitespace().collect();
            if t.is_empty() || t[0].starts_with('#') {
                continue;
            }
            let need = |n: usize| if t.len() < n { Err(format!("short line: {line}")) } else { Ok(()) };
            match t[0] {
                "findex-sim-plan" => {}
                "prop" => p.prop = t.get(1).unwrap_or(&"").to_string(),
                "profile" => p.profile = t.get(1).unwrap_or(&"").to_string(),
                "seed" => p.seed = num(t.get(1).unwrap_or(&""))?,
                "config" => {
                    need(6)?;
                    p.mem = kv(t[1])? != 0;
                    p.batch = kv(t[2])? as usize;
                    p.dmax = kv(t[3])?;
                    p.timeout = kv(t[4])?;
                    p.share = kv(t[5])? != 0;
                    p.trace = t.len() > 6 && kv(t[6])? != 0;
                }
                "key" => p.keys.push(unhex(t[1])?),
                "label" => p.labels.push(unhex(t[1])?),
                "keyword" => p.kws.push(unhex(t[1])?),
                "peer" => p.peers.push(t[1] == "base"),
                "index" => {
                    need(3)?;
                    p.homes.push(Ns { key: num(t[1])? as usize, label: num(t[2])? as usize });
                }
                "phase" => {
                    need(3)?;
                    p.phases.push(Phase {
                        prefer_new: kv(t[1])? != 0,
                        snapshot: kv(t[2])? != 0,
                        ..Phase::default()
                    });
                }
                "fate" => {
                    need(9)?;
                    let arg = num(t[4])?;
                    let act = match t[3] {
                        "ok" => Act::Ok,
                        "request_lost" => Act::ReqLost,
                        "reply_lost" => Act::RepLost,
                        "storage_error" => Act::Reject,
                        "applied_after_timeout" => Act::Late(arg),
                        "duplicated_request" => Act::Dup(arg),
                        "crash_before_request" => Act::CrashBefore,
                        "panic_in_request" => Act::Panic,
                        "crash_request_in_flight" => Act::CrashSent,
                        "crash_after_applied" => Act::CrashApplied,
                        x => return Err(format!("bad act {x}")),
                    };
                    let c = t[7].split_once('=').map_or("", |x| x.1);
                    p.fates.push(Fate {
                        op: num(t[1])? as u32,
                        call: num(t[2])? as u32,
                        act,
                        shuffle: kv(t[5])? != 0,
                        duprow: kv(t[6])? != 0,
                        corrupt: if c == "-" { None } else { Some(num(c)?) },
                        slow: kv(t[8])?,
                    });
                }
                _ => {
                    let ph = p.phases.last_mut().ok_or("line outside a phase")?;
                    match t[0] {
                        "restart" => ph.restarts.push(num(t[1])?),
                        "partition" => {
                            need(4)?;
                            ph.partitions.push((num(t[1])? as usize, num(t[2])?, num(t[3])?));
                        }
                        "rot" => {
                            ph.rot = Some((
                                if t[1] == "0" { Table::Et } else { Table::Ct },
                                num(t[2])?,
                            ));
                        }
                        "client" => ph.clients.push((num(t[1])? as usize, vec![])),
                        "op" => {
                            let op = op_parse(&t)?;
                            ph.clients.last_mut().ok_or("op outside a client")?.1.push(op);
                        }
                        x => return Err(format!("unknown line {x}")),
                    }
                }
            }
        }
        for ph in &p.phases {
            for (c, _) in &ph.clients {
                if *c >= p.peers.len() {
                    return Err("unknown client".into());
                }
            }
        }
        Ok(p)
    }
}

fn nsref(n: &NsRef) -> String {
    match n {
        NsRef::Home(i) => format!("home:{i}"),
        NsRef::At(ns) => format!("at:{}:{}", ns.key, ns.label),
    }
}

fn list(v: &[usize]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn hexlist(v: &[Bytes]) -> String {
    if v.is_empty() {
        return ".".into();
    }
    v.iter().map(|x| hex(x)).collect::<Vec<_>>().join(",")
}

pub fn op_text(op: &Op) -> String {
    match &op.kind {
        OpKind::Mod { add, ns, items } => {
            let items: Vec<String> = items
                .iter()
                .map(|(iv, k)| {
                    let (t, b) = match iv {
                        Iv::P(b) => ('p', b),
                        Iv::D(b) => ('d', b),
                    };
                    format!("{t}:{}:{}", hex(b), list(k))
                })
                .collect();
            format!(
                "op {} {} {} {}",
                op.id,
                if *add { "add" } else { "del" },
                nsref(ns),
                items.join(" ")
            )
        }
        OpKind::Search { ns, kws, stop, suspend } => format!(
            "op {} search {} {} {} {suspend}",
            op.id,
            nsref(ns),
            list(kws),
            match stop {
                Stop::Never => "run".to_string(),
                Stop::After(n) => format!("stop:{n}"),
                Stop::ErrAt(n) => format!("fail:{n}"),
            }
        ),
        OpKind::Raw { code, sel } => format!("op {} raw {code} {sel}", op.id),
        OpKind::Compact { from, to, rate, filter } => format!(
            "op {} compact {} {} {} {rate:?} {}",
            op.id,
            nsref(from),
            to.key,
            to.label,
            match filter {
                Filter::Keep => "keep".to_string(),
                Filter::Drop(v) => format!("drop:{}", hexlist(v)),
                Filter::Extra(v) => format!("extra:{}", hexlist(v)),
                Filter::DropAll => "dropall".to_string(),
                Filter::Fail => "fail".to_string(),
                Filter::FailAt(n) => format!("failat:{n}"),
            }
        ),
    }
}

fn op_parse(t: &[&str]) -> Result<Op, String> {
    let e = |m: &str| format!("{m}: {}", t.join(" "));
    let num = |s: &str| -> Result<u64, String> { s.parse::<u64>().map_err(|x| format!("{s}: {x}")) };
    if t.len() < 4 {
        return Err(e("short op"));
    }
    let id = num(t[1])? as u32;
    let ns = |s: &str| -> Result<NsRef, String> {
        let p: Vec<&str> = s.split(':').collect();
        match p.as_slice() {
            ["home", i] => Ok(NsRef::Home(num(i)? as usize)),
            ["at", k, l] => {
                Ok(NsRef::At(Ns { key: num(k)? as usize, label: num(l)? as usize }))
            }
            _ => Err(format!("bad namespace {s}")),
        }
    };
    let nums = |s: &str| -> Result<Vec<usize>, String> {
        if s == "-" {
            return Ok(vec![]);
        }
        s.split(',').map(|x| num(x).map(|x| x as usize)).collect()
    };
    let hexes = |s: &str| -> Result<Vec<Bytes>, String> {
        if s == "." {
            return Ok(vec![]);
        }
        s.split(',').map(unhex).collect()
    };
    let kind = match t[2] {
        "add" | "del" => {
            let mut items = vec![];
            for it in &t[4..] {
                let p: Vec<&str> = it.split(':').collect();
                if p.len() != 3 {
                    return Err(e("bad item"));
                }
                let b = unhex(p[1])?;
                items.push((if p[0] == "p" { Iv::P(b) } else { Iv::D(b) }, nums(p[2])?));
            }
            OpKind::Mod { add: t[2] == "add", ns: ns(t[3])?, items }
        }
        "search" => {
            if t.len() < 7 {
                return Err(e("short search"));
            }
            let stop = match t[5].split_once(':') {
                None => Stop::Never,
                Some(("stop", n)) => Stop::After(num(n)? as u32),
                Some((_, n)) => Stop::ErrAt(num(n)? as u32),
            };
            OpKind::Search { ns: ns(t[3])?, kws: nums(t[4])?, stop, suspend: num(t[6])? }
        }
        "compact" => {
            if t.len() < 8 {
                return Err(e("short compact"));
            }
            let filter = match t[7].split_once(':') {
                None => match t[7] {
                    "keep" => Filter::Keep,
                    "dropall" => Filter::DropAll,
                    _ => Filter::Fail,
                },
                Some(("drop", v)) => Filter::Drop(hexes(v)?),
                Some(("failat", v)) => Filter::FailAt(num(v)? as u32),
                Some((_, v)) => Filter::Extra(hexes(v)?),
            };
            OpKind::Compact {
                from: ns(t[3])?,
                to: Ns { key: num(t[4])? as usize, label: num(t[5])? as usize },
                rate: t[6].parse::<f64>().map_err(|x| x.to_string())?,
                filter,
            }
        }
        "raw" => {
            if t.len() < 5 {
                return Err(e("short raw"));
            }
            OpKind::Raw { code: num(t[3])? as u8, sel: num(t[4])? }
        }
        x => return Err(format!("unknown op {x}")),
    };
    Ok(Op { id, kind })
}
