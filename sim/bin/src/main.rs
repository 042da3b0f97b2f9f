mod eval;
mod gen;
mod model;
mod run;
mod shrink;

use eval::*;
use run::*;
use simcore::plan::*;
use simcore::raw;
use simcore::rt;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::PathBuf;

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()))
}
fn init() {
    rt::shm_init();
    rt::init_ranges();
    rt::install_alloc_failure_unwind();
    // a panic in the harness itself is worth seeing; those of calls are results
    let show = std::env::var("SIM_HOOK").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        if show {
            raw_note(&format!("{}\n", i))
        }
    }));
}

/// Scenarios per run of a check: (quick, thorough).
fn budget(prop: &str) -> (u64, u64) {
    match prop {
        "C01" => (12000, 120000),
        "C02" => (10000, 100000),
        "C03" | "C04" | "C08" => (7000, 70000),
        "C05" | "C09" | "C10" | "C16" => (14000, 140000),
        "C06" | "C07" | "C14" | "C17" => (20000, 200000),
        "C12" => (5000, 50000),
        "C13" => (36000, 360000),
        _ => (8000, 80000),
    }
}
fn level(prop: &str) -> &'static str {
    let _ = prop;
    "exploration"
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "seeded workloads of 2-4 callers x seeded schedules (and re-entrant calls); non-trivial = at least one switch inside a library call or one re-entrant call; distinct by hash of the full execution trace",
        "C02" => "seeded workloads with one caller stalled for ever or crashed inside a call; non-trivial = the stall or crash happened inside the library; distinct by trace hash",
        "C05" => "seeded register/query histories on 1-2 sweep objects; non-trivial = at least two queries; distinct by trace hash",
        "C06" => "seeded call sequences run with healthy and with failing stdout/stderr; non-trivial = ran to completion; distinct by trace hash",
        "C07" => "seeded call sequences run twice, in default and in perturbed surroundings (entropy, clock, environment, addresses, thread and process identity); non-trivial = surroundings differ; distinct by trace hash",
        "C08" => "seeded call sequences repeated 12-40 times identically in one process, with and without an injected failure in each round; non-trivial = ran to completion; distinct by trace hash",
        "C11" => "seeded call histories, with and without failures in earlier calls; non-trivial = more than one call; distinct by trace hash",
        "C15" => "seeded histories of registrations and queries on sweep objects of 1-3 callers, under schedules and interruptions, compared with a reference model; non-trivial = a fault fired or a switch happened inside a call; distinct by trace hash",
        "C16" => "seeded histories of additions, interruptions and queries on hull objects, compared with a reference model; non-trivial = a fault fired or more than one query; distinct by trace hash",
        "C17" => "seeded histories of additions, removals and interruptions on a vertex's edge list, compared with a reference model; non-trivial = a fault fired or at least two changes; distinct by trace hash",
        "C12" => "seeded query storms on one object, with and without interrupted queries; distinct by trace hash",
        _ => "seeded workloads with a fault injected at a seeded event inside a call; non-trivial = the fault fired; distinct by trace hash",
    }
}

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325;
    for b in prop.bytes() {
        h = fnv(h, b as u64);
    }
    mix(h ^ mix(base.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03)))
}

/// Listed defects of the code under test: (plan that shows it, class of the violation, text).
fn known(prop: &str) -> Vec<(PathBuf, String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(root().join("KNOWN_FINDINGS")).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let mut w = r.splitn(4, ' ');
        let mut get = |k: &str| w.next().and_then(|x| x.strip_prefix(k)).unwrap_or("").to_string();
        let (p, plan, class) = (get("property="), get("plan="), get("class="));
        if p == prop {
            v.push((root().join(plan), class, w.next().unwrap_or("").to_string()));
        }
    }
    v
}

struct Found {
    i: u64,
    file: String,
}

fn worker(prop: &str, base: u64, k: u64, nw: u64, n: u64, limit: f64, depth: u64, stop: *mut u64, out: &PathBuf) {
    rt::shm_init();
    let mut ev = Ev::new();
    let t0 = raw::now();
    let mut i = k;
    let mut found: Option<Found> = None;
    let mut samples: Vec<String> = vec![];
    while i < n {
        if unsafe { stop.read_volatile() } < i || raw::now() - t0 > limit {
            break;
        }
        let s = seed_of(base, prop, i);
        let before = ev.st.nontriv.len();
        if let Some((p, class, detail)) = gen::scenario(&mut ev, prop, s, depth) {
            unsafe {
                if stop.read_volatile() > i {
                    stop.write_volatile(i);
                }
            }
            let mut e2 = Ev::new();
            let (p, detail, tried) = shrink::shrink(&mut e2, p, &class, detail, 60.0);
            let dir = root().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let file = dir.join(format!("{}-{}.plan", prop, i));
            let txt = format!(
                "# property {} violated: {}\n# {}\n# found at scenario {} of seed {}; {} shorter plans tried while minimising\n# replay: /verif/check.sh replay {}\n{}",
                prop, class, detail.replace('\n', " "), i, base, tried, file.display(), p.to_text()
            );
            std::fs::write(&file, txt).unwrap();
            found = Some(Found { i, file: file.display().to_string() });
            break;
        }
        if samples.len() < 2 && ev.st.nontriv.len() > before && i / nw % 50 == 0 {
            samples.push(format!("scenario {} seed {}", i, s));
        }
        i += nw;
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for (k, v) in &ev.st.c {
        writeln!(f, "c {} {}", v, k).unwrap();
    }
    for x in &ev.st.sched {
        writeln!(f, "s {}", x).unwrap();
    }
    for x in &ev.st.traces {
        writeln!(f, "t {}", x).unwrap();
    }
    for x in &ev.st.nontriv {
        writeln!(f, "n {}", x).unwrap();
    }
    for s in &samples {
        writeln!(f, "e {}", s).unwrap();
    }
    if let Some(x) = found {
        writeln!(f, "v {} {}", x.i, x.file).unwrap();
    }
    writeln!(f, "done").unwrap();
    f.flush().unwrap();
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn check(prop: &str, tier: &str, base: u64) -> i32 {
    let t0 = raw::now();
    let (q, t) = budget(prop);
    let (mut n, limit, depth) = if tier == "thorough" { (t, 3000.0, 2) } else { (q, 420.0, 1) };
    if let Ok(x) = std::env::var("SIM_SCENARIOS") {
        n = x.parse().unwrap();
    }
    let nw: u64 = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let stop = raw::map_shared(4096) as *mut u64;
    unsafe { *stop = u64::MAX };
    let tmp = root().join(".build").join(format!("tmp-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let mut pids = vec![];
    for k in 0..nw {
        let pid = raw::fork();
        if pid == 0 {
            worker(prop, base, k, nw, n, limit, depth, stop, &tmp.join(format!("w{}", k)));
            raw::exit_group(0);
        }
        pids.push(pid);
    }
    for p in pids {
        raw::wait(p);
    }
    let mut c: BTreeMap<String, u64> = BTreeMap::new();
    let mut sets: [HashSet<u64>; 3] = Default::default();
    let mut samples = vec![];
    let mut found: Vec<(u64, String)> = vec![];
    let mut broken = 0;
    for k in 0..nw {
        let Ok(s) = std::fs::read_to_string(tmp.join(format!("w{}", k))) else {
            broken += 1;
            continue;
        };
        if !s.ends_with("done\n") {
            broken += 1;
        }
        for l in s.lines() {
            let (h, r) = l.split_once(' ').unwrap_or((l, ""));
            match h {
                "c" => {
                    let (v, k) = r.split_once(' ').unwrap();
                    *c.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap();
                }
                "s" | "t" | "n" => {
                    let i = ["s", "t", "n"].iter().position(|x| *x == h).unwrap();
                    sets[i].insert(r.parse().unwrap());
                }
                "e" => samples.push(r.to_string()),
                "v" => {
                    let (i, f) = r.split_once(' ').unwrap();
                    found.push((i.parse().unwrap(), f.to_string()));
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    found.sort();
    let g = |k: &str| c.get(k).copied().unwrap_or(0);
    let mut edges = 0;
    for i in 0..rt::COVER {
        edges += unsafe { *rt::COVERMAP.add(i) } as u64;
    }
    if let Ok(f) = std::env::var("SIM_COVER") {
        cover(&f);
    }
    // a violation must reproduce exactly, in a fresh process, from its file
    let mut rc = 0;
    let mut nviol = 0;
    for (_, f) in &found {
        let mut ev = Ev::new();
        let p = Plan::parse(&std::fs::read_to_string(f).unwrap()).expect("replay file");
        match eval::eval(&mut ev, &p) {
            Ver::Bad(class, detail) => {
                println!("{}: {}", class, detail);
                println!("VIOLATION property={} replay={}", prop, f);
                nviol = 1;
                rc = 1;
                break;
            }
            _ => {
                println!("harness error: {} does not reproduce", f);
                rc = 2;
            }
        }
    }
    for (file, class, text) in known(prop) {
        let mut ev = Ev::new();
        let p = Plan::parse(&std::fs::read_to_string(&file).expect("findings")).expect("plan");
        match eval::eval(&mut ev, &p) {
            Ver::Bad(c, _) if c == class => println!("KNOWN-FINDING: property={} {}", prop, text),
            Ver::Bad(c, d) => {
                println!("{}: {}", c, d);
                println!("VIOLATION property={} replay={}", prop, file.display());
                nviol += 1;
                rc = 1;
            }
            _ => println!("{}: no longer fails: {}", prop, text),
        }
    }
    if broken > 0 && rc == 0 {
        println!("harness error: {} worker(s) died", broken);
        rc = 2;
    }
    let thrown: u64 = c.iter().filter(|(k, _)| k.starts_with("discarded:")).map(|x| x.1).sum();
    if rc == 0 && g("scenarios") >= 100 && (g("evaluations") + g("scenarios")).saturating_sub(thrown) < g("scenarios") * 3 / 2 {
        // hardly anything could be decided: that is no answer
        println!("harness error: {} of {} scenarios and evaluations were discarded", thrown, g("evaluations") + g("scenarios"));
        rc = 2;
    }
    let wall = raw::now() - t0;
    let mut ex = vec![];
    for s in samples.iter().take(3) {
        // write the sample out in full: regenerate its base plan
        let w: Vec<&str> = s.split(' ').collect();
        ex.push(js(&format!("{}: {}", s, sample_plan(prop, w[3].parse().unwrap(), depth))));
    }
    if ex.is_empty() {
        let s = seed_of(base, prop, 0);
        ex.push(js(&format!("scenario 0 seed {}: {}", s, sample_plan(prop, s, depth))));
    }
    let kv = |p: &str| {
        c.iter()
            .filter(|(k, _)| k.starts_with(p))
            .map(|(k, v)| format!("{}: {}", js(&k[p.len()..]), v))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let ident = |k: &str| format!("{}: {}", js(k), g(k));
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"scenarios_requested\": {}, {}, \"simulated_runs\": {}, {},\n  \"simulated_runs_per_hour\": {}, \"seeds_per_hour\": {},\n  \"simulated_time_s\": {:.6}, {},\n  \"faults_fired\": {{{}}},\n  \"discarded\": {{{}}},\n  {}, {}, {}, {}, {},\n  {}, {}, {}, {},\n  \"distinct_schedules\": {}, \"distinct_execution_traces\": {},\n  \"library_edges_reached\": {}, \"library_edges_instrumented\": {},\n  \"real_code\": \"all of rcgal (native build, generic code instantiated for f64, f32 and the caller-supplied wrappers), std collections and locks\",\n  \"stubs\": \"scheduler (threads run one at a time), clock, futex, entropy, environment, file opening, stdout/stderr, allocator failure, caller-supplied number and segment types that delegate to the library's own\",\n  \"not_run\": \"src/wasm (wasm32 only)\"\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        js(prop), js(tier), base, js(level(prop)),
        g("evaluations"), sets[2].len(), js(rule(prop)), ex.join(", "),
        n, ident("scenarios"), g("runs"), ident("baseline_runs"),
        (g("runs") as f64 / wall * 3600.0) as u64, (g("scenarios") as f64 / wall * 3600.0) as u64,
        g("simulated_ns") as f64 * 1e-9, ident("simulated_steps"),
        kv("fault:"), kv("discarded:"),
        ident("calls"), ident("calls_ok"), ident("calls_injected_failure"), ident("calls_panicked"), ident("calls_skipped"),
        ident("switches"), ident("midcall_switches"), ident("stalls_midcall"), ident("static_accesses"),
        sets[0].len(), sets[1].len(), edges, rt::guards(),
        [
            "a scheduling point is a control-flow edge of library code, or an access to static memory or to values shared by callers; effects of weak memory ordering are not simulated",
            "faults hit at calls out of the library (number type, segment type, allocator, system calls), which is where a panic or an error can come from",
            "calls that do not finish even alone within the step budget are outside the property's domain and are counted as discarded",
        ]
        .iter()
        .map(|s| js(s))
        .collect::<Vec<_>>()
        .join(", "),
        wall, nviol
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop)), ev).unwrap();
    println!(
        "{} {}: {} scenarios, {} evaluations, {} simulated runs, {} distinct non-trivial, {:.1}s, exit {}",
        prop, tier, g("scenarios"), g("evaluations"), g("runs"), sets[2].len(), wall, rc
    );
    rc
}

/// One line per guard: was it reached, and its address relative to that of `main`.
fn cover(file: &str) {
    let (a, b) = unsafe { rt::PCS };
    let mut s = format!("{}\n", cover as *const () as usize);
    for i in 0..(b - a) / 16 {
        let pc = unsafe { *((a + 16 * i) as *const usize) };
        s += &format!("{} {}\n", unsafe { *rt::COVERMAP.add(i + 1) }, pc);
    }
    std::fs::write(file, s).unwrap();
}

fn sample_plan(prop: &str, seed: u64, depth: u64) -> String {
    let mut ev = Ev::new();
    ev.keep = true;
    let _ = gen::scenario(&mut ev, prop, seed, depth);
    ev.kept.last().cloned().unwrap_or_default()
}

fn main() {
    raw::fixed_layout();
    let a: Vec<String> = std::env::args().collect();
    init();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"), base),
        Some("replay") => {
            let p = Plan::parse(&std::fs::read_to_string(&a[2]).expect("file")).expect("plan");
            let mut ev = Ev::new();
            match eval::eval(&mut ev, &p) {
                Ver::Ok => {
                    println!("{}: property held", a[2]);
                    0
                }
                Ver::Discard(w) => {
                    println!("{}: outside the domain ({})", a[2], w);
                    0
                }
                Ver::Bad(c, d) => {
                    println!("{}: {}", c, d);
                    println!("VIOLATION property={} replay={}", p.prop, a[2]);
                    1
                }
            }
        }
        // one execution, in full
        Some("trace") => {
            let p = Plan::parse(&std::fs::read_to_string(&a[2]).expect("file")).expect("plan");
            let mut ev = Ev::new();
            let r = ev.run(&p);
            println!("{:?} trace {:x} schedule {:x} steps {} switches {}", r.stat, r.hdr[3], r.hdr[10], r.hdr[8], r.hdr[4]);
            for (t, v) in r.recs.iter().enumerate() {
                for x in v {
                    println!("caller {} call {}: {} steps, events {:?}, fired {:?}, live {}: {}", t, x.idx, x.steps, x.n, x.fired, x.live, show(x));
                }
            }
            0
        }
        Some("scenario") => {
            let mut ev = Ev::new();
            let i: u64 = a[3].parse().unwrap();
            let s = seed_of(base, &a[2], i);
            ev.keep = true;
            let r = gen::scenario(&mut ev, &a[2], s, 1);
            if let Some((p, c, d)) = r {
                println!("# {} {}\n{}", c, d, p.to_text());
            } else {
                println!("{}", ev.kept.last().cloned().unwrap_or_default());
            }
            0
        }
        // executions repeat exactly, whatever process runs them and in whatever order
        Some("determinism") => determinism(base, a.get(2).and_then(|x| x.parse().ok()).unwrap_or(40)),
        _ => {
            eprintln!("usage: sim check PROP [quick|thorough] | replay FILE | trace FILE | scenario PROP I | determinism [N]");
            2
        }
    };
    raw::exit_group(rc as i64);
}

fn determinism(base: u64, n: u64) -> i32 {
    let mut bad = 0;
    let mut tot = 0;
    for prop in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"] {
        for i in 0..n {
            let s = seed_of(base, prop, i);
            let mut ev = Ev::new();
            ev.keep = true;
            let _ = gen::scenario(&mut ev, prop, s, 1);
            for txt in ev.kept.iter().take(3) {
                let p = Plan::parse(txt).expect("plan text");
                assert_eq!(&p.to_text(), txt);
                let mut e = Ev::new();
                let mut a = e.run(&p);
                // unrelated work in between, more memory in the parent
                let junk: Vec<u8> = vec![1; 100_000 + (i as usize % 7) * 4096];
                let mut b = e.run(&p);
                drop(junk);
                for r in [&mut a, &mut b] {
                    r.hdr[15] = 0;
                }
                tot += 1;
                if a != b {
                    bad += 1;
                    println!("NOT DETERMINISTIC {} {}:\n{}", prop, i, txt);
                    for (x, y) in a.recs.iter().flatten().zip(b.recs.iter().flatten()) {
                        if x != y {
                            println!(" {:?}\n {:?}", x, y);
                            break;
                        }
                    }
                }
            }
        }
    }
    println!("determinism: {} executions repeated, {} differed", tot, bad);
    (bad > 0) as i32 * 2
}
fn raw_note(s: &str) {
    unsafe { raw::sc(raw::WRITE, 2, s.as_ptr() as i64, s.len() as i64) };
}
