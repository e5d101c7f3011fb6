//! Which plans decide which property, and which violations count for it.

use crate::gen;
use crate::plan::Plan;
use crate::rng::{hash, hash_str};

pub const PROPS: [&str; 27] = [
    "F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "F10", "F11", "F12", "F13", "F14",
    "F15", "F16", "F17", "F18", "F19", "F20", "F21", "F22", "F23", "F26",
    "F27", "F28", "F29",
];

const DEPTH: usize = 12_000;

fn table(prop: &str) -> &'static [(u32, &'static str)] {
    match prop {
        "F01" => &[(3, "long"), (2, "starve"), (25, "mods"), (30, "mods_faulty"), (12, "contention"), (6, "bulk"), (4, "bulk_faulty"), (13, "threads"), (10, "mods_mem")],
        "F02" => &[(3, "long"), (2, "starve"), (30, "mods"), (30, "mods_faulty"), (12, "contention"), (4, "bulk"), (14, "threads"), (10, "mods_mem")],
        "F03" => &[(3, "long"), (25, "mods"), (20, "mods_faulty"), (25, "graph"), (15, "namespaces"), (5, "bulk"), (10, "corruption")],
        "F04" => &[(12, "long"), (4, "starve"), (45, "mods"), (35, "contention"), (20, "threads")],
        "F05" => &[(4, "long"), (80, "mods_faulty"), (5, "bulk_faulty"), (15, "graph_faulty")],
        "F06" => &[(3, "long"), (2, "starve"), (30, "mods"), (30, "mods_faulty"), (20, "contention"), (10, "threads"), (10, "compact_clean")],
        "F07" => &[(200, "long"), (7000, "graph"), (2800, "graph_faulty"), (190, "bulk"), (10, "deep")],
        "F08" => &[(70, "interrupt"), (30, "interrupt_faulty")],
        "F09" => &[(8, "starve"), (3, "long"), (45, "contention"), (20, "mods"), (15, "threads"), (15, "graph"), (5, "threadc")],
        "F10" => &[(3, "long"), (45, "mods_faulty"), (20, "graph_faulty"), (25, "compact_faulty"), (10, "compact_clean")],
        "F11" => &[(5, "long"), (80, "compact_clean"), (10, "bulk"), (10, "threadc")],
        "F12" => &[(42, "compact_faulty"), (36, "compact_race"), (8, "writers_new"), (10, "rerun"), (15, "threadc")],
        "F13" => &[(2, "long"), (90, "compact_refused"), (10, "compact_faulty")],
        "F14" => &[(2, "long"), (10, "rerun"), (75, "compact_faulty"), (15, "compact_refused")],
        "F15" => &[(4, "long"), (60, "compact_clean"), (30, "partial"), (10, "bulk")],
        "F16" => &[(3, "long"), (80, "compact_clean"), (10, "compact_refused"), (10, "bulk")],
        "F17" => &[(80, "namespaces"), (15, "compact_clean"), (5, "writers_new")],
        "F18" => &[(4, "long"), (3, "starve"), (20, "mods"), (20, "mods_faulty"), (15, "graph"), (25, "compact_clean"), (10, "compact_faulty"), (10, "bulk")],
        "F19" => &[(100, "twin")],
        "F20" => &[(100, "corruption")],
        "F21" => &[(45, "memops"), (25, "threads"), (10, "threadc"), (20, "mods_mem")],
        "F22" => &[(15, "snapbig"), (60, "snap"), (30, "memops"), (10, "mods_snap")],
        "F23" => &[(100, "mixed")],
        "F26" => &[(60, "writers_new"), (40, "writers")],
        "F27" => &[(60, "share"), (10, "partial"), (15, "compact_clean"), (10, "compact_faulty"), (5, "long")],
        "F28" => &[
            (35, "compact_clean"), (25, "compact_faulty"), (15, "compact_refused"), (10, "share"), (5, "partial"),
            (10, "rerun"),
        ],
        "F29" => &[
            (20, "mods"), (30, "mods_faulty"), (10, "contention"), (8, "graph"), (8, "graph_faulty"), (8, "interrupt_faulty"),
            (6, "namespaces"), (5, "long"), (5, "bulk_faulty"), (3, "writers_new"), (5, "rerun"),
        ],
        _ => &[],
    }
}

pub fn seed_of(verif_seed: u64, prop: &str, i: u64) -> u64 {
    // Seeds stay readable in replay files.
    hash(&[verif_seed, hash_str(prop), i]) >> 1
}

pub fn plan(prop: &str, seed: u64) -> Option<Plan> {
    let t = table(prop);
    let total: u32 = t.iter().map(|x| x.0).sum();
    if total == 0 {
        return None;
    }
    let huge = !matches!(prop, "F08" | "F13" | "F14" | "F19" | "F20" | "F21" | "F22" | "F27" | "F28");
    if huge && hash(&[seed, 0x9b]) % 1000 < 2 {
        return Some(by_name(prop, "huge", seed));
    }
    let mut k = (hash(&[seed, 0x9a]) % u64::from(total)) as u32;
    let mut name = "";
    for (w, n) in t {
        if k < *w {
            name = n;
            break;
        }
        k -= w;
    }
    let mut p = by_name(prop, name, seed);
    if prop == "F28" && p.batch == 0 {
        p.batch = 1 + (hash(&[seed, 0x9c]) % 6) as usize;
    }
    Some(p)
}

pub fn by_name(prop: &str, name: &str, seed: u64) -> Plan {
    match name {
        "mods" => gen::mods(prop, "mods", seed, false),
        "mods_faulty" => gen::mods(prop, "mods_faulty", seed, true),
        "mods_mem" => {
            let mut p = gen::mods(prop, "mods_mem", seed, seed % 2 == 0);
            p.mem = true;
            p
        }
        "mods_snap" => {
            let mut p = gen::mods(prop, "mods_snap", seed, false);
            p.mem = true;
            for ph in &mut p.phases {
                ph.snapshot = true;
            }
            p
        }
        "contention" => gen::contention(prop, seed),
        "starve" => gen::starve(prop, seed),
        "long" => gen::long(prop, seed),
        "huge" => gen::huge(prop, seed),
        "bulk" => gen::bulk(prop, seed, false),
        "bulk_faulty" => gen::bulk(prop, seed, true),
        "graph" => gen::graph(prop, "graph", seed, false, false),
        "graph_faulty" => gen::graph(prop, "graph_faulty", seed, false, true),
        "interrupt" => gen::graph(prop, "interrupt", seed, true, false),
        "interrupt_faulty" => gen::graph(prop, "interrupt_faulty", seed, true, true),
        "deep" => gen::deep(prop, seed, DEPTH),
        "compact_clean" => gen::compact_clean(prop, "compact_clean", seed),
        "compact_faulty" => gen::compact_faulty(prop, "compact_faulty", seed, if prop == "F14" { 12 } else { 25 }),
        "compact_refused" => gen::compact_refused(prop, seed),
        "compact_race" => gen::compact_race(prop, seed),
        "writers" => gen::writers(prop, seed, true),
        "writers_new" => gen::writers(prop, seed, false),
        "rerun" => gen::rerun(prop, seed),
        "share" => gen::compact_share(prop, seed),
        "partial" => gen::compact_partial(prop, seed),
        "namespaces" => gen::namespaces(prop, "namespaces", seed),
        "corruption" => gen::corruption(prop, seed),
        "mixed" => gen::mixed(prop, seed),
        "twin" => gen::twin(prop, seed),
        "memops" => gen::memops(prop, seed),
        "threads" => gen::threads(prop, "threads", seed),
        "threadc" => gen::threads(prop, "threadc", seed),
        "snapbig" => gen::base(prop, "snapbig", seed).plan,
        "snap" => gen::threads(prop, "snap", seed),
        x => panic!("unknown profile {x}"),
    }
}

const CRASHES: [&str; 6] = ["panic", "deadlock", "livelock", "hang", "abort", "mem_panic"];
const CONTENT: [&str; 11] = [
    "lost", "resurrect", "phantom", "partial", "order", "regress", "keys", "graph_extra", "graph_missing",
    "unreadable", "err",
];

/// Does a violation of this class break the property?
pub fn counts(prop: &str, class: &str) -> bool {
    let crash = CRASHES.contains(&class);
    let content = CONTENT.contains(&class);
    let comp = class.starts_with("c_");
    match prop {
        "F01" => crash || matches!(class, "lost" | "order" | "partial" | "regress" | "unreadable" | "err" | "graph_missing" | "keys"),
        "F02" => crash || matches!(class, "resurrect" | "order" | "partial" | "regress" | "unreadable" | "err" | "lost"),
        "F03" => crash || matches!(class, "phantom" | "keys" | "graph_extra" | "unreadable" | "corrupt_ok" | "err"),
        "F04" => crash || (content && !matches!(class, "graph_extra" | "keys")),
        "F05" => crash || content,
        "F06" => crash || matches!(class, "newkw" | "err"),
        "F07" => crash || content,
        "F08" => crash || content || class == "interrupt",
        "F09" => crash || matches!(class, "err" | "work" | "c_err" | "c_race_err" | "unreadable"),
        "F10" => crash || content || comp || class == "corrupt_ok",
        "F11" => crash || matches!(class, "c_lost" | "c_content" | "c_old" | "c_filter" | "c_filter_input" | "c_err" | "unreadable" | "lost" | "phantom" | "resurrect"),
        "F12" => crash || matches!(class, "c_lost" | "c_content" | "c_race_read" | "c_race_err" | "c_err" | "unreadable" | "lost" | "graph_missing"),
        "F13" => crash || matches!(class, "c_rollback" | "c_refuse" | "c_filter" | "c_lost"),
        "F14" => crash || content || matches!(class, "c_wedge" | "c_lost" | "c_err" | "c_content" | "c_old"),
        "F15" => crash || class == "c_waste",
        "F16" => crash || matches!(class, "c_renew" | "c_old" | "c_refuse" | "c_err"),
        "F17" => crash || content || comp,
        "F18" => class.starts_with("srv_"),
        "F19" => class == "shape" || crash,
        "F20" => crash || content || comp || class.starts_with("corrupt_"),
        "F21" => crash || content || comp || class == "mem_lin",
        "F22" => crash || class.starts_with("snap") || content,
        "F23" => crash || content || comp || class == "newkw" || class == "mixed_view" || class == "work",
        "F26" => crash || content || comp,
        "F27" => crash || class == "c_share",
        "F28" => crash || class == "c_batch",
        "F29" => crash || class == "append",
        _ => false,
    }
}
