//! Command line: search for violations, minimise, report, replay.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write as _};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use crate::oracle::Viol;
use crate::plan::*;
use crate::run::{run, RunOut};
use crate::suite::{self, counts, seed_of};
use crate::world::Stats;

fn env_num(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn main(args: &[String]) -> i32 {
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    match a.as_slice() {
        ["check", prop, tier] => check(prop, tier),
        ["worker", prop, seed, start, stride, secs, max] => {
            let n = |s: &str| s.parse::<u64>().unwrap();
            worker(prop, n(seed), n(start), n(stride), n(secs), n(max))
        }
        ["replay", file] => replay(Path::new(file), true),
        ["quiet", file] => replay(Path::new(file), false),
        ["gen", prop, i] => {
            let seed = seed_of(env_num("VERIF_SEED", 1), prop, i.parse().unwrap());
            println!("{}", suite::plan(prop, seed).unwrap().to_text());
            0
        }
        ["one", prop, i] => {
            quiet_panics();
            let seed = seed_of(env_num("VERIF_SEED", 1), prop, i.parse().unwrap());
            let plan = suite::plan(prop, seed).unwrap();
            let out = run(&plan, true);
            println!("{}", plan.to_text());
            show(&out);
            i32::from(out.viols.iter().any(|v| counts(prop, v.class)))
        }
        ["seed", prop, seed] => {
            quiet_panics();
            let plan = suite::plan(prop, seed.parse().unwrap()).unwrap();
            let plan = match std::env::var("VERIF_CLASS") {
                Ok(class) => shrink(prop, &plan, &class, Duration::from_secs(60)),
                Err(_) => plan,
            };
            let out = run(&plan, true);
            println!("{}", plan.to_text());
            show(&out);
            i32::from(out.viols.iter().any(|v| counts(prop, v.class)))
        }
        ["hashes", prop, from, to] => {
            quiet_panics();
            for i in from.parse::<u64>().unwrap()..to.parse::<u64>().unwrap() {
                let seed = seed_of(env_num("VERIF_SEED", 1), prop, i);
                let plan = suite::plan(prop, seed).unwrap();
                let log = i % 16 == 0;
                let out = run(&plan, log);
                let l = crate::rng::hash_str(&out.log.join("\n"));
                println!("{i} {:016x} {:016x} {}", out.trace, l, out.viols.len());
            }
            0
        }
        ["survey", prop, n] => survey(prop, n.parse().unwrap()),
        ["profile", prop, name, n] => {
            for i in 0..n.parse().unwrap() {
                let plan = suite::by_name(prop, name, seed_of(1, prop, i));
                let t = Instant::now();
                let out = crate::run::run(&plan, false);
                println!(
                    "{i} {:.2} s, {} keywords, {} requests {:?} {:?}",
                    t.elapsed().as_secs_f64(),
                    plan.kws.len(),
                    out.stats.calls,
                    out.viols.iter().map(|v| (&v.class, &v.detail)).collect::<Vec<_>>(),
                    out.known
                );
            }
            0
        }
        ["show", prop, name, i] => {
            let plan = suite::by_name(prop, name, seed_of(1, prop, i.parse().unwrap()));
            print!("{}", plan.to_text());
            show(&crate::run::run(&plan, true));
            0
        }
        _ => {
            eprintln!("usage: findex-sim check PROP TIER | replay FILE | one PROP I | gen PROP I | survey PROP N | profile PROP NAME N | show PROP NAME I");
            2
        }
    }
}

fn show(out: &RunOut) {
    for l in &out.log {
        println!("  {l}");
    }
    for v in &out.viols {
        println!("violation [{}] {}", v.class, v.detail);
    }
    for k in &out.known {
        println!("known finding {k}");
    }
    println!("faults {:?}", out.stats.fired);
    println!("probes {:?}", out.stats.probes);
    println!("trace {:016x}", out.trace);
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        // Files of the simulator are relative to its crate.
        let file = i.location().map_or("", |l| l.file());
        crate::run::set_blame(file.starts_with('/') && !file.starts_with("/rustc/") && !file.contains("/rustlib/") && !file.contains("/vendor/"));
    }));
}

/// Counts violation classes over many runs (used while building the simulator).
fn survey(prop: &str, n: u64) -> i32 {
    quiet_panics();
    let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut stats = Stats::default();
    let mut time: BTreeMap<String, (u64, f64, f64)> = BTreeMap::new();
    for i in 0..n {
        let seed = seed_of(env_num("VERIF_SEED", 1), prop, i);
        let plan = suite::plan(prop, seed).unwrap();
        let t = Instant::now();
        let out = run(&plan, false);
        let t = t.elapsed().as_secs_f64();
        let e = time.entry(plan.profile.clone()).or_default();
        e.0 += 1;
        e.1 += t;
        e.2 = e.2.max(t);
        for v in &out.viols {
            m.entry(format!("{} {}", plan.profile, v.class)).or_insert((i, 0, v.detail.clone())).1 += 1;
        }
        for k in &out.known {
            m.entry(format!("{} known {k}", plan.profile)).or_insert((i, 0, String::new())).1 += 1;
        }
        stats.merge(&out.stats);
    }
    for (k, (i, c, d)) in &m {
        println!("{c:6} {k} first={i} {}", d.chars().take(300).collect::<String>());
    }
    println!("{stats:#?}");
    for (k, (n, t, x)) in time {
        println!("{k}: {n} runs, mean {:.3} ms, max {:.1} ms", t * 1e3 / n as f64, x * 1e3);
    }
    0
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
}

fn limit_memory() {
    let l = Rlimit { cur: 3 << 30, max: 3 << 30 };
    // RLIMIT_AS: a runaway allocation fails here instead of exhausting the machine. No core files.
    unsafe {
        setrlimit(9, &l);
        setrlimit(4, &Rlimit { cur: 0, max: 0 });
    }
}

/// Runs seeds `start, start + stride, ..`; reports on standard output.
fn worker(prop: &str, vseed: u64, start: u64, stride: u64, secs: u64, max: u64) -> i32 {
    quiet_panics();
    limit_memory();
    let t0 = Instant::now();
    let mut i = start;
    let mut stats = Stats::default();
    let mut profiles: BTreeMap<String, u64> = BTreeMap::new();
    let mut runs = 0u64;
    let mut traces: HashSet<u64> = HashSet::new();
    let mut orders: HashSet<u64> = HashSet::new();
    let mut found = 0;
    let mut nondet = 0u64;
    let mut recheck = 0u64;
    let out_lock = std::io::stdout();
    let mut o = out_lock.lock();
    while t0.elapsed() < Duration::from_secs(secs) && runs < max && found < 20 {
        let _ = writeln!(o, "B {i}");
        let _ = o.flush();
        let seed = seed_of(vseed, prop, i);
        let plan = suite::plan(prop, seed).expect("known property");
        *profiles.entry(plan.profile.clone()).or_default() += 1;
        let out = run(&plan, false);
        runs += 1;
        if runs <= 8 {
            recheck += 1;
            if run(&plan, false).trace != out.trace {
                nondet += 1;
            }
        }
        stats.merge(&out.stats);
        orders.insert(out.stats.interleaving);
        if out.nontrivial {
            traces.insert(out.trace);
        }
        for v in &out.viols {
            if counts(prop, v.class) || v.class == "harness" {
                found += 1;
                let _ = writeln!(o, "V {i} {} {}", v.class, v.detail.replace('\n', " "));
            }
        }
        for k in &out.known {
            let _ = writeln!(o, "K {i} {k}");
        }
        i += stride;
    }
    let _ = writeln!(o, "n runs {runs}");
    let _ = writeln!(o, "n recheck {recheck}");
    let _ = writeln!(o, "n nondeterministic {nondet}");
    for (k, v) in [
        ("events", stats.events),
        ("sim_time", stats.sim_time),
        ("calls", stats.calls),
        ("ops", stats.ops),
        ("ok_ops", stats.ok_ops),
        ("unchecked", stats.unchecked),
    ] {
        let _ = writeln!(o, "n {k} {v}");
    }
    let _ = writeln!(o, "m max_concurrent {}", stats.max_concurrent);
    for (k, v) in &stats.fired {
        let _ = writeln!(o, "f {k} {v}");
    }
    for (k, v) in &stats.probes {
        let _ = writeln!(o, "p {k} {v}");
    }
    for (k, v) in &profiles {
        let _ = writeln!(o, "q {k} {v}");
    }
    for h in &traces {
        let _ = writeln!(o, "h {h:x}");
    }
    for h in &orders {
        let _ = writeln!(o, "x {h:x}");
    }
    let _ = writeln!(o, "E");
    let _ = o.flush();
    0
}

#[derive(Default)]
struct Total {
    n: BTreeMap<String, u64>,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    profiles: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    orders: HashSet<u64>,
    known: BTreeMap<String, u64>,
    viols: Vec<(u64, String, String)>,
}

impl Total {
    /// Returns true at the end of a worker's report.
    fn line(&mut self, l: &str) -> bool {
        let t: Vec<&str> = l.splitn(4, ' ').collect();
        let num = |s: &str| s.parse::<u64>().unwrap_or(0);
        match t.as_slice() {
            ["V", i, class, d] => self.viols.push((num(i), (*class).into(), (*d).into())),
            ["K", _, k] => *self.known.entry((*k).into()).or_default() += 1,
            ["n", k, v] => *self.n.entry((*k).into()).or_default() += num(v),
            ["m", k, v] => {
                let e = self.n.entry((*k).into()).or_default();
                *e = (*e).max(num(v));
            }
            ["f", k, v] => *self.fired.entry((*k).into()).or_default() += num(v),
            ["p", k, v] => *self.probes.entry((*k).into()).or_default() += num(v),
            ["q", k, v] => *self.profiles.entry((*k).into()).or_default() += num(v),
            ["h", v] => {
                self.traces.insert(u64::from_str_radix(v, 16).unwrap_or(0));
            }
            ["x", v] => {
                self.orders.insert(u64::from_str_radix(v, 16).unwrap_or(0));
            }
            ["E"] => return true,
            _ => {}
        }
        false
    }
    fn get(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
}

struct W {
    child: Child,
    last: u64,
    begun: Option<u64>,
    beat: Instant,
    done: bool,
    ended: bool,
}

fn spawn(prop: &str, vseed: u64, start: u64, stride: u64, secs: u64, max: u64) -> Child {
    Command::new(std::env::current_exe().expect("own path"))
        .args([
            "worker",
            prop,
            &vseed.to_string(),
            &start.to_string(),
            &stride.to_string(),
            &secs.to_string(),
            &max.to_string(),
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a worker")
}

enum End {
    Clean,
    Violated,
    Signal,
    Hang,
}

/// Runs a replay file in a fresh process.
fn replay_in_child(file: &Path, limit: Duration) -> End {
    let mut c = Command::new(std::env::current_exe().expect("own path"))
        .arg("quiet")
        .arg(file)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a replay");
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                return match s.code() {
                    Some(0) => End::Clean,
                    Some(_) => End::Violated,
                    None => End::Signal,
                }
            }
            Ok(None) if t0.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return End::Hang;
            }
            _ => std::thread::sleep(Duration::from_millis(10)),
        }
    }
}

const HANG: Duration = Duration::from_secs(45);

fn check(prop: &str, tier: &str) -> i32 {
    if !suite::PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let t0 = Instant::now();
    let vseed = env_num("VERIF_SEED", 1);
    let secs = env_num("VERIF_SECS", if tier == "thorough" { 400 } else { 40 });
    let workers = env_num("VERIF_WORKERS", std::thread::available_parallelism().map_or(8, |n| n.get() as u64)).max(1);
    let known = known_findings(prop);

    let mut total = Total::default();
    let (tx, rx) = mpsc::channel::<(usize, Option<String>)>();
    let mut ws: Vec<W> = vec![];
    let mut restarts = 0;
    let start = |id: usize, from: u64, secs: u64, tx: &mpsc::Sender<(usize, Option<String>)>| -> W {
        let mut child = spawn(prop, vseed, from, workers, secs, u64::MAX);
        let out = child.stdout.take().expect("piped");
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send((id, Some(l))).is_err() {
                    return;
                }
            }
            let _ = tx.send((id, None));
        });
        W { child, last: from, begun: None, beat: Instant::now(), done: false, ended: false }
    };
    for w in 0..workers {
        ws.push(start(w as usize, w, secs, &tx));
    }
    let mut first: Option<Instant> = None;
    let mut suspects: Vec<(u64, &'static str)> = vec![];
    let mut oddities = 0u64;
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((id, Some(l))) => {
                let w = &mut ws[id];
                w.beat = Instant::now();
                if let Some(i) = l.strip_prefix("B ") {
                    let i = i.parse().unwrap_or(0);
                    w.begun = Some(i);
                    w.last = i;
                } else {
                    if l.starts_with("n runs") {
                        w.begun = None;
                    }
                    if total.line(&l) {
                        w.ended = true;
                    }
                }
            }
            Ok((id, None)) => {
                let _ = ws[id].child.wait();
                ws[id].done = true;
                if !ws[id].ended && first.is_none() {
                    // Died in the middle of a run.
                    if let Some(i) = ws[id].begun {
                        suspects.push((i, "abort"));
                    }
                }
            }
            Err(_) => {}
        }
        if first.is_none() {
            for w in ws.iter_mut() {
                if !w.done && w.beat.elapsed() > HANG {
                    let _ = w.child.kill();
                    if let Some(i) = w.begun.take() {
                        suspects.push((i, "hang"));
                    }
                    w.beat = Instant::now();
                }
            }
        }
        if !total.viols.is_empty() && first.is_none() {
            first = Some(Instant::now());
        }
        if let Some(t) = first {
            if t.elapsed() > Duration::from_millis(1500) {
                break;
            }
        }
        if !suspects.is_empty() && first.is_none() {
            // Confirm alone.
            let (i, class) = suspects.pop().unwrap();
            let plan = suite::plan(prop, seed_of(vseed, prop, i)).expect("plan");
            let file = write_replay(prop, &plan, &[], class, "");
            let confirmed = match replay_in_child(&file, HANG) {
                End::Signal => Some("abort"),
                End::Hang => Some("hang"),
                End::Violated => Some("run"),
                End::Clean => None,
            };
            match confirmed {
                Some(c) if c != "run" => {
                    let d = if c == "abort" {
                        "the process was killed (stack overflow, allocation failure or abort)"
                    } else {
                        "the run never ends"
                    };
                    total.viols.push((i, c.into(), d.into()));
                    break;
                }
                Some(_) => {
                    total.viols.push((i, "run".into(), "see the replay".into()));
                    break;
                }
                None => {
                    oddities += 1;
                    restarts += 1;
                    let left = secs.saturating_sub(t0.elapsed().as_secs());
                    if restarts < 20 && left > 0 {
                        let id = (i % workers) as usize;
                        if ws[id].done {
                            ws[id] = start(id, i + workers, left, &tx);
                        }
                    }
                }
            }
        }
        if ws.iter().all(|w| w.done) && suspects.is_empty() {
            break;
        }
        if t0.elapsed() > Duration::from_secs(secs + 150) {
            break;
        }
    }
    for w in &mut ws {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    let search = t0.elapsed();

    // A finding that is not on the list is a violation.
    let mut unlisted: Vec<(String, String)> = vec![];
    for (k, n) in &total.known {
        let owner = if k == "K1" { "F14" } else { "F26" };
        if prop == owner {
            if !known.iter().any(|(id, _)| id == k) {
                unlisted.push((k.clone(), format!("{k} observed {n} times but not listed")));
            }
        }
    }
    if let Some((_, _, d)) = total.viols.iter().find(|v| v.1 == "harness") {
        eprintln!("the simulator itself failed: {d}");
        return 2;
    }
    let mut code = 0;
    let mut violations = 0;
    if !total.viols.is_empty() {
        violations = total.viols.len() as u64;
        code = report(prop, vseed, &total);
    } else if !unlisted.is_empty() {
        for (_, u) in &unlisted {
            println!("{u}");
        }
        violations = 1;
        code = 1;
        println!("VIOLATION property={prop} replay=/verif/known/{}.plan", unlisted[0].0);
    }
    let runs = total.get("runs");
    evidence(prop, tier, vseed, &total, t0.elapsed(), search, violations, oddities, &known);
    for (id, what) in &known {
        println!("KNOWN-FINDING: property={prop} {what} [{id}, met {} times in this run]", total.known.get(id).copied().unwrap_or(0));
    }
    println!(
        "{prop} {tier}: {runs} simulated runs, {} distinct non-trivial, {:.0} runs/h, {} fault kinds, {:.1} s",
        total.traces.len(),
        runs as f64 * 3600.0 / search.as_secs_f64(),
        total.fired.len(),
        t0.elapsed().as_secs_f64()
    );
    if code == 0 && runs == 0 {
        eprintln!("nothing was run");
        return 2;
    }
    code
}

fn report(prop: &str, vseed: u64, total: &Total) -> i32 {
    // The smallest plan among those found.
    let mut best: Option<(usize, Plan, String, String)> = None;
    for (i, class, detail) in total.viols.iter().take(60) {
        let Some(plan) = suite::plan(prop, seed_of(vseed, prop, *i)) else { continue };
        let n = plan.n_ops() * 10 + plan.fates.len() + plan.kws.len();
        if best.as_ref().is_none_or(|b| n < b.0) {
            best = Some((n, plan, class.clone(), detail.clone()));
        }
    }
    let (_, plan, class, detail) = best.expect("a violation");
    println!("found [{class}] {detail}");
    let external = class == "abort" || class == "hang" || class == "run";
    let budget = Duration::from_secs(env_num("VERIF_SHRINK_SECS", if external { 60 } else { 45 }));
    let small = shrink(prop, &plan, &class, budget);
    quiet_panics();
    for p in [&small, &plan] {
        let out = if external { RunOut::default() } else { run(p, true) };
        let v: Vec<&Viol> = out.viols.iter().filter(|v| counts(prop, v.class)).collect();
        if !external && v.is_empty() {
            continue;
        }
        let class = v.first().map_or(class.as_str(), |v| v.class);
        let file = write_replay(prop, p, &out.log, class, &out.viols.iter().map(|v| format!("# [{}] {}\n", v.class, v.detail)).collect::<String>());
        let end = replay_in_child(&file, HANG);
        let same = match (&end, class) {
            (End::Signal, _) | (End::Violated, _) => true,
            (End::Hang, _) => true,
            (End::Clean, _) => false,
        };
        if same {
            for v in v.iter().take(3) {
                println!("minimised: [{}] {}", v.class, v.detail);
            }
            println!("seed {} of property {prop}: {} operations, {} faults", p.seed, p.n_ops(), p.fates.len());
            println!("VIOLATION property={prop} replay={}", file.display());
            return 1;
        }
    }
    eprintln!("a violation was found but could not be replayed: [{class}] {detail}");
    2
}

fn write_replay(prop: &str, plan: &Plan, log: &[String], class: &str, viols: &str) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{prop}-{class}-{:016x}.plan", plan.seed));
    let mut s = plan.to_text();
    let _ = writeln!(s, "# replay with: /verif/replay.sh {}", file.display());
    s.push_str(viols);
    if !log.is_empty() {
        s.push_str("# trace of the run:\n");
        for l in log.iter().take(4000) {
            let _ = writeln!(s, "#   {l}");
        }
    }
    let _ = std::fs::write(&file, s);
    file
}

fn replay(file: &Path, verbose: bool) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {e}", file.display());
            return 2;
        }
    };
    let plan = match Plan::from_text(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}: {e}", file.display());
            return 2;
        }
    };
    quiet_panics();
    limit_memory();
    let out = run(&plan, verbose);
    if verbose {
        show(&out);
    }
    let bad = out.viols.iter().any(|v| counts(&plan.prop, v.class));
    if bad && verbose {
        println!("VIOLATION property={} replay={}", plan.prop, file.display());
    }
    i32::from(bad)
}

// ---------------------------------------------------------------------------------------------
// Minimisation.

fn shrink(prop: &str, plan: &Plan, class: &str, budget: Duration) -> Plan {
    quiet_panics();
    let t0 = Instant::now();
    let external = class == "abort" || class == "hang" || class == "run";
    let tmp = root().join("replays").join(format!("{prop}-shrink.tmp"));
    let fails = |p: &Plan| -> bool {
        if external {
            let _ = std::fs::write(&tmp, p.to_text());
            let limit = Duration::from_secs(if class == "hang" { 5 } else { 20 });
            match (replay_in_child(&tmp, limit), class) {
                (End::Signal, "abort") | (End::Hang, "hang") | (End::Violated, "run") => true,
                _ => false,
            }
        } else {
            run(p, false).viols.iter().any(|v| v.class == class)
        }
    };
    let mut cur = plan.clone();
    if plan.profile == "deep" {
        return cur;
    }
    loop {
        let mut better = false;
        let mut k = 0;
        loop {
            if t0.elapsed() > budget {
                let _ = std::fs::remove_file(&tmp);
                return cur;
            }
            let Some(cand) = reduction(&cur, k) else { break };
            match cand {
                Some(c) if c != cur && fails(&c) => {
                    cur = c;
                    better = true;
                }
                _ => k += 1,
            }
        }
        if !better {
            break;
        }
    }
    let _ = std::fs::remove_file(&tmp);
    cur
}

/// The `k`-th way to make a plan smaller: `None` when there is none left.
fn reduction(p: &Plan, k: usize) -> Option<Option<Plan>> {
    let mut k = k;
    let mut take = |n: usize| -> Option<usize> {
        if k < n {
            Some(k)
        } else {
            k -= n;
            None
        }
    };
    let mut q = p.clone();
    let np = p.phases.len();
    if let Some(i) = take(np) {
        q.phases.remove(np - 1 - i);
        return Some(Some(q));
    }
    let clients: Vec<(usize, usize)> =
        p.phases.iter().enumerate().flat_map(|(i, ph)| (0..ph.clients.len()).map(move |c| (i, c))).collect();
    if let Some(i) = take(clients.len()) {
        let (a, b) = clients[i];
        q.phases[a].clients.remove(b);
        return Some(Some(q));
    }
    let ops: Vec<(usize, usize, usize)> = clients
        .iter()
        .flat_map(|(i, c)| (0..p.phases[*i].clients[*c].1.len()).map(move |o| (*i, *c, o)))
        .collect();
    if let Some(i) = take(ops.len()) {
        let (a, b, c) = ops[i];
        q.phases[a].clients[b].1.remove(c);
        return Some(Some(q));
    }
    if let Some(i) = take(p.fates.len()) {
        q.fates.remove(i);
        return Some(Some(q));
    }
    if let Some(i) = take(4 * np) {
        let ph = &mut q.phases[i / 4];
        match i % 4 {
            0 => ph.restarts.clear(),
            1 => ph.partitions.clear(),
            2 => ph.rot = None,
            _ => ph.snapshot = false,
        }
        return Some(Some(q));
    }
    if let Some(i) = take(7) {
        match i {
            0 => q.batch = 0,
            1 => q.mem = false,
            2 => q.share = false,
            5 => q.trace = false,
            3 => q.dmax = if matches!(q.profile.as_str(), "memops" | "threads" | "threadc" | "snap") { q.dmax } else { 1 },
            4 => q.peers.iter_mut().for_each(|b| *b = false),
            _ => q.fates.iter_mut().for_each(|f| {
                f.slow = 0;
                f.shuffle = false;
                f.duprow = false;
            }),
        }
        return Some(Some(q));
    }
    // Inside operations.
    for (a, b, c) in ops {
        let op = &p.phases[a].clients[b].1[c];
        match &op.kind {
            OpKind::Mod { items, .. } => {
                if items.len() > 1 {
                    if let Some(i) = take(items.len() + 2) {
                        if let OpKind::Mod { items, .. } = &mut q.phases[a].clients[b].1[c].kind {
                            let h = items.len() / 2;
                            match i {
                                0 => {
                                    items.truncate(h);
                                }
                                1 => {
                                    items.drain(..h);
                                }
                                i => {
                                    items.remove(i - 2);
                                }
                            }
                        }
                        return Some(Some(q));
                    }
                }
                for (j, it) in items.iter().enumerate() {
                    if it.1.len() > 1 {
                        if let Some(i) = take(it.1.len()) {
                            if let OpKind::Mod { items, .. } = &mut q.phases[a].clients[b].1[c].kind {
                                items[j].1.remove(i);
                            }
                            return Some(Some(q));
                        }
                    }
                }
            }
            OpKind::Search { kws, suspend, .. } => {
                if kws.len() > 1 {
                    if let Some(i) = take(kws.len()) {
                        if let OpKind::Search { kws, .. } = &mut q.phases[a].clients[b].1[c].kind {
                            kws.remove(i);
                        }
                        return Some(Some(q));
                    }
                }
                if *suspend > 0 && take(1).is_some() {
                    if let OpKind::Search { suspend, .. } = &mut q.phases[a].clients[b].1[c].kind {
                        *suspend = 0;
                    }
                    return Some(Some(q));
                }
            }
            OpKind::Compact { filter, .. } => {
                if *filter != Filter::Keep && take(1).is_some() {
                    if let OpKind::Compact { filter, .. } = &mut q.phases[a].clients[b].1[c].kind {
                        *filter = Filter::Keep;
                    }
                    return Some(Some(q));
                }
            }
            OpKind::Raw { .. } => {}
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------
// Reports.

/// `known: property=F14 id=K1 <what fails>` lines of the committed file.
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let l = l.strip_prefix(&format!("property={prop} id="))?;
            let (id, what) = l.split_once(' ')?;
            Some((id.to_string(), what.to_string()))
        })
        .collect()
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    format!("{{{}}}", v.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    vseed: u64,
    t: &Total,
    wall: Duration,
    search: Duration,
    violations: u64,
    oddities: u64,
    known: &[(String, String)],
) {
    quiet_panics();
    let mut samples = vec![];
    for i in 0..2 {
        if let Some(p) = suite::plan(prop, seed_of(vseed, prop, i)) {
            let text = p.to_text();
            samples.push(js(&text.chars().take(3000).collect::<String>()));
        }
    }
    let runs = t.get("runs");
    let threads = t.profiles.keys().any(|k| matches!(k.as_str(), "memops" | "threads" | "threadc" | "snap"));
    let real = "cosmian_findex (search, add, delete, compact, graph, multi-map, entry and chain tables, encryption), unmodified client code of the current tree";
    let stub = "network and clients' processes (simulated); storage servers: reference implementation of the documented contract in most runs, the real bundled InMemoryDb in the others; OS randomness (seeded getrandom)";
    let knowns: Vec<String> = known
        .iter()
        .map(|(id, w)| format!("{{\"id\": {}, \"what\": {}, \"met\": {}}}", js(id), js(w), t.known.get(id).copied().unwrap_or(0)))
        .collect();
    let s = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {vseed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {runs},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"seeds_per_hour\": {:.0},\n    \"simulated_runs\": {runs},\n    \"simulated_time_units\": {},\n    \"simulator_events\": {},\n    \"storage_requests\": {},\n    \"operations\": {},\n    \"operations_ok\": {},\n    \"max_concurrent_operations\": {},\n    \"distinct_interleavings\": {},\n    \"interleaving_measure\": {},\n    \"faults_injected\": {},\n    \"situations_reached\": {},\n    \"runs_per_profile\": {},\n    \"reads_too_ambiguous_to_check\": {},\n    \"determinism\": {{\"runs_executed_twice\": {}, \"different\": {}}},\n    \"workers_restarted\": {oddities},\n    \"known_findings\": [{}],\n    \"real_components\": {},\n    \"stubbed_components\": {},\n    \"real_threads\": {}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {violations}\n}}\n",
        js(prop),
        js(tier),
        t.traces.len(),
        js("one evaluation is one simulated run decided by one seed (configuration, scripts, schedule, faults); it is non-trivial if at least two operations ran and operations overlapped, a fault fired or a compaction completed (graph profiles: always); two runs are distinct if the hashes of their plan, event order, results and read-back contents differ"),
        samples.join(", "),
        runs as f64 * 3600.0 / search.as_secs_f64(),
        t.get("sim_time"),
        t.get("events"),
        t.get("calls"),
        t.get("ops"),
        t.get("ok_ops"),
        t.get("max_concurrent"),
        t.orders.len(),
        js("hash of the order in which storage executed (operation, request) pairs, or of the sequence of threads chosen"),
        map(&t.fired),
        map(&t.probes),
        map(&t.profiles),
        t.get("unchecked"),
        t.get("recheck"),
        t.get("nondeterministic"),
        knowns.join(", "),
        js(real),
        js(stub),
        if threads { "true" } else { "false" },
        [
            "the storage contract is the one documented on DbInterface; each storage request is atomic",
            "a client sends one request at a time per operation and gives up on the operation after an error or a timeout",
            "only explored schedules and faults are covered: this is a search, not a proof",
        ]
        .iter()
        .map(|x| js(x))
        .collect::<Vec<_>>()
        .join(", "),
        wall.as_secs_f64(),
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), s);
}
