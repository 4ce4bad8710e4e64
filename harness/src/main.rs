//! Monitors for the semantic properties of the `upon` crate.
//!
//!   harness check <ID> <quick|thorough>     run a check (spawns workers), write evidence
//!   harness worker <ID> <tier> <w> <n> <dir> <from>
//!   harness one <ID> <idx> [tier]           run one case, verbosely
//!   harness probe <what>                    run something that may abort

mod alloc;
mod check;
mod dict;
mod funcs;
mod gen;
mod json;
mod model;
mod obs;
mod probe;
mod props;
mod rng;
mod val;
mod wire;

use check::{Ctx, Prop, Stats};
use json::J;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn limit(resource: i32, n: u64) {
    unsafe {
        setrlimit(resource, &[n, n]);
    }
}

const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

/// Built with ThreadSanitizer: it needs address space, and ends the process with this code.
fn under_tsan() -> bool {
    std::env::var("VERIF_TSAN").is_ok()
}

const TSAN_EXIT: i32 = 66;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    limit(RLIMIT_CORE, 0);
    let code = match arg(1) {
        "check" => check(arg(2), if arg(3) == "thorough" { "thorough" } else { "quick" }),
        "worker" => big_stack({
            let a = a.clone();
            move || worker(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6], a[7].parse().unwrap())
        }),
        "one" => {
            limit(RLIMIT_CPU, 120);
            if !under_tsan() {
                limit(RLIMIT_AS, 12 << 30);
            }
            big_stack({
                let a = a.clone();
                move || one(&a[2], a[3].parse().unwrap(), a.get(4).is_some_and(|t| t == "thorough"))
            })
        }
        "probe" => probe::main(arg(2)),
        "list" => {
            for p in props::all() {
                println!("{} {}", p.id, p.level);
            }
            0
        }
        _ => {
            eprintln!("usage: harness check <ID> <quick|thorough>");
            2
        }
    };
    std::process::exit(code);
}

fn big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(1 << 29).spawn(f).unwrap().join().unwrap_or(3)
}

fn prop(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such check: {id}");
        std::process::exit(2)
    })
}

/// Runs one case; a panic that escapes is a defect of the harness.
fn case(p: &Prop, ctx: &mut Ctx) -> Result<Result<(), String>, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(ctx))).map_err(|_| obs::last_panic())
}

fn worker(id: &str, tier: &str, w: u64, n: u64, dir: &str, from: u64) -> i32 {
    if !under_tsan() {
        limit(RLIMIT_AS, 12 << 30);
    }
    obs::silence_panics();
    let p = prop(id);
    let total = if tier == "thorough" { p.thorough } else { p.quick };
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let journal = std::fs::File::create(format!("{dir}/journal.{w}")).unwrap();
    let seed = seed();
    let mut ctx = Ctx { idx: 0, rng: rng::Rng::new(0), thorough: tier == "thorough", st: Stats::default(), verbose: false };
    let mut idx = from;
    let mut code = 0;
    while idx < total {
        let _ = journal.write_all_at(&idx.to_le_bytes(), 0);
        ctx.idx = idx;
        ctx.rng = Ctx::rng_for(seed, id, idx);
        gen::begin(&mut Ctx::rng_for(seed ^ 0x5eed, id, idx));
        match case(&p, &mut ctx) {
            Ok(Ok(())) => {}
            Ok(Err(msg)) => {
                std::fs::write(format!("{dir}/violation.{w}"), format!("{idx}\n{msg}")).unwrap();
                code = 1;
                break;
            }
            Err(panic) => {
                std::fs::write(format!("{dir}/broken.{w}"), format!("{idx}\n{panic}")).unwrap();
                code = 2;
                break;
            }
        }
        idx += n;
    }
    ctx.st.save(&format!("{dir}/stats.{w}.{from}"));
    code
}

fn one(id: &str, idx: u64, thorough: bool) -> i32 {
    obs::silence_panics();
    // A case that waits for something that never comes uses no processor time.
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(150));
        println!("case {idx} did not finish");
        std::process::exit(4);
    });
    let p = prop(id);
    let mut ctx = Ctx { idx, rng: Ctx::rng_for(seed(), id, idx), thorough, st: Stats::default(), verbose: true };
    gen::begin(&mut Ctx::rng_for(seed() ^ 0x5eed, id, idx));
    match case(&p, &mut ctx) {
        Ok(Ok(())) => {
            println!("case {idx} of {id}: held");
            for s in &ctx.st.samples {
                println!("  {s}");
            }
            println!("  {:?} {:?}", ctx.st.counts, ctx.st.maxima);
            0
        }
        Ok(Err(m)) => {
            println!("case {idx} of {id}: VIOLATED\n{m}");
            1
        }
        Err(m) => {
            println!("case {idx} of {id}: harness panic: {m}");
            2
        }
    }
}

struct W {
    child: Child,
    idx: u64,
    since: Instant,
    done: Option<ExitStatus>,
}

fn check(id: &str, tier: &str) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let seed = seed();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let ev = format!("{root}/evidence");
    let dir = format!("{ev}/work-{id}-{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let n = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8);
    let spawn = |w: u64, from: u64| -> W {
        let child = Command::new(&exe)
            .args(["worker", id, tier, &w.to_string(), &n.to_string(), &dir, &from.to_string()])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        W { child, idx: from, since: Instant::now(), done: None }
    };
    let rerun = |idx: u64| -> (ExitStatus, String) {
        let o = Command::new(&exe).args(["one", id, &idx.to_string(), tier]).output().expect("rerun");
        (o.status, String::from_utf8_lossy(&o.stdout).into_owned())
    };
    let mut ws: Vec<W> = (0..n).map(|w| spawn(w, w)).collect();
    let mut violations: Vec<(u64, String)> = vec![];
    let mut broken: Vec<String> = vec![];
    let mut restarts = 0;
    let patience = Duration::from_secs(if tier == "thorough" { 150 } else { 100 });
    while ws.iter().any(|w| w.done.is_none()) {
        std::thread::sleep(Duration::from_millis(20));
        for k in 0..ws.len() {
            if ws[k].done.is_some() {
                continue;
            }
            let now = std::fs::read(format!("{dir}/journal.{k}"))
                .ok()
                .and_then(|b| b.try_into().ok())
                .map(u64::from_le_bytes)
                .unwrap_or(ws[k].idx);
            if now != ws[k].idx {
                ws[k].idx = now;
                ws[k].since = Instant::now();
            }
            let mut stuck = None;
            match ws[k].child.try_wait().expect("wait") {
                Some(s) if s.code() == Some(0) => ws[k].done = Some(s),
                Some(s) if s.code() == Some(1) && std::path::Path::new(&format!("{dir}/violation.{k}")).exists() => {
                    let t = std::fs::read_to_string(format!("{dir}/violation.{k}")).unwrap();
                    let (i, m) = t.split_once('\n').unwrap();
                    violations.push((i.parse().unwrap(), m.to_string()));
                    ws[k].done = Some(s);
                }
                Some(s) if s.code() == Some(2) => {
                    broken.push(std::fs::read_to_string(format!("{dir}/broken.{k}")).unwrap_or_default());
                    ws[k].done = Some(s);
                }
                Some(s) if s.code() == Some(TSAN_EXIT) && under_tsan() => {
                    let report: String = std::fs::read_dir(&ev)
                        .into_iter()
                        .flatten()
                        .flatten()
                        .filter(|f| f.file_name().to_string_lossy().starts_with("tsan.log"))
                        .filter_map(|f| std::fs::read_to_string(f.path()).ok())
                        .collect();
                    violations.push((now, format!("ThreadSanitizer reports\n{report}")));
                    ws[k].done = Some(s);
                }
                Some(s) => stuck = Some(format!("died: {s}")),
                None if ws[k].since.elapsed() > patience => {
                    let _ = ws[k].child.kill();
                    let _ = ws[k].child.wait();
                    stuck = Some("did not finish".into());
                }
                None => {}
            }
            if let Some(how) = stuck {
                // Alone, does the case die again?
                let idx = now;
                let (s, out) = rerun(idx);
                match s.code() {
                    Some(0) => {
                        restarts += 1;
                        if restarts > 5 {
                            broken.push(format!("{idx}\nworker {how}, not reproducible"));
                            ws[k].done = Some(s);
                        } else {
                            ws[k] = spawn(k as u64, idx + n);
                        }
                    }
                    Some(2) => {
                        broken.push(format!("{idx}\n{out}"));
                        ws[k].done = Some(s);
                    }
                    _ => {
                        violations.push((idx, format!("the process {how}; run alone: {s}\n{out}")));
                        ws[k].done = Some(s);
                    }
                }
            }
        }
        if !violations.is_empty() && ws.iter().any(|w| w.done.is_none()) {
            // Give the others a moment, then stop.
            std::thread::sleep(Duration::from_millis(200));
            for w in &mut ws {
                if w.done.is_none() {
                    let _ = w.child.kill();
                    w.done = w.child.wait().ok();
                }
            }
        }
    }
    let mut st = Stats::default();
    if let Ok(rd) = std::fs::read_dir(&dir) {
        for f in rd.flatten() {
            let path = f.path();
            if path.file_name().is_some_and(|n| n.to_string_lossy().starts_with("stats.")) {
                let _ = st.load(&path.to_string_lossy());
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut extra: Vec<(String, J)> = vec![("workers".into(), J::Int(n as i64))];

    // Probes of inputs that may take the whole process down.
    if id == "C01" || id == "C02" {
        let (kinds, doing) = if id == "C01" { (probe::COMPILE, "compiling") } else { (probe::RENDER, "rendering") };
        let known = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
        let mut rows = vec![];
        for what in kinds {
            let s = {
                let mut c = Command::new(&exe).args(["probe", what]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("probe");
                let t = Instant::now();
                loop {
                    match c.try_wait().expect("probe") {
                        Some(s) => break s,
                        None if t.elapsed() > Duration::from_secs(200) => {
                            let _ = c.kill();
                            break c.wait().expect("probe");
                        }
                        None => std::thread::sleep(Duration::from_millis(5)),
                    }
                }
            };
            st.evaluations += 1;
            rows.push(J::s(format!("{what}: {s}")));
            if s.code() != Some(0) {
                let line = format!("finding: property={id} input={what} ");
                if known.lines().any(|l| l.starts_with(&line)) {
                    println!("KNOWN-FINDING: property={id} {doing} {what} overflows the stack and aborts the process ({s})");
                } else {
                    violations.push((u64::MAX, format!("{doing} {what}: {s}; rerun with: harness probe {what}")));
                }
            }
        }
        extra.push(("process_probes".into(), J::Arr(rows)));
    }

    // What another build of the same check observed.
    if let Some(t) = std::env::var("VERIF_EXTRA").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
        extra.push(("thread_sanitizer_build".into(), J::Raw(t.trim().to_string())));
    }

    if !broken.is_empty() && violations.is_empty() {
        eprintln!("the check itself failed: {}", broken.join("\n"));
        return 2;
    }
    let mut short = vec![];
    if violations.is_empty() && std::env::var("VERIF_CASES").is_err() {
        for (k, min) in p.mins {
            let got = st.counts.get(*k).copied().unwrap_or(0);
            if got < *min {
                short.push(format!("{k}: {got} < {min}"));
            }
        }
    }
    violations.sort();
    let text = check::evidence(&p, tier, seed, &mut st, t0.elapsed().as_secs_f64(), violations.len() as i64, extra);
    std::fs::write(format!("{ev}/{id}.json"), text + "\n").unwrap();
    println!("{id} {tier} seed={seed}: {} cases, {} distinct, {:.1}s", st.evaluations, st.hashes.len(), t0.elapsed().as_secs_f64());
    if let Some((idx, msg)) = violations.first() {
        let path = format!("{ev}/{id}.violation.txt");
        let mut f = std::fs::File::create(&path).unwrap();
        let _ = writeln!(
            f,
            "property {id}, case {idx}, seed {seed}, tier {tier}\nreplay: cd /verif && VERIF_SEED={seed} ./check.sh one {id} {idx} {tier}\n\n{msg}"
        );
        println!("{msg}");
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    if !short.is_empty() {
        eprintln!("observed too little: {}", short.join(", "));
        return 2;
    }
    0
}
