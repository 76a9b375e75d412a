//! llsym: symbolic execution of LLVM IR, one job per line of a job file.
//!   llsym IR JOBS [--threads N] [--solver "z3-new -in"] [--timeout-ms T] [--steps N] [--job-secs S]
//!                 [--samples K] [--trace L]
//! A job line: <id> <entry> [param]* [@tag:value]*      (a choice fixed to a value)      Output: one JSON object per job on stdout.
mod exec;
mod expr;
mod ir;
mod mem;
mod sha256;
mod smt;

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

#[derive(Clone)]
struct Cfg {
    solver: Vec<String>,
    timeout_ms: u64,
    steps: u64,
    job_secs: u64,
    samples: usize,
    trace: u32,
    seed: u64,
    no_merge: bool,
    dump: Option<String>,
}

fn job(m: &Arc<ir::Module>, line: &str, cfg: &Cfg, end: Instant) -> String {
    let mut it = line.split_whitespace();
    let id = it.next().unwrap().to_string();
    let entry = it.next().unwrap().to_string();
    let mut params: Vec<u64> = vec![];
    let mut fixed = vec![];
    for x in it {
        match x.strip_prefix('@').and_then(|x| x.split_once(':')) {
            Some((tag, v)) => fixed.push((tag.parse().expect("tag"), v.parse().expect("choice"))),
            None => params.push(x.parse().expect("parameter")),
        }
    }
    let t0 = Instant::now();
    let deadline = (t0 + Duration::from_secs(cfg.job_secs)).min(end);
    let lim = exec::Limits { steps: cfg.steps, samples: cfg.samples, deadline, no_merge: cfg.no_merge };
    let mut c = exec::Ctx::new(m.clone(), cfg.solver.clone(), cfg.timeout_ms, params, lim);
    c.trace = cfg.trace;
    c.fixed = fixed;
    c.seed = cfg.seed;
    if let Some(d) = &cfg.dump {
        c.s.dump = std::fs::File::create(format!("{d}/{id}.smt2")).ok();
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.entry(&entry)));
    let status = match &r {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(exec::Stop::Violation)) => "violation".to_string(),
        Ok(Err(exec::Stop::Unsupported(s))) => format!("error: {s}"),
        Err(e) => {
            let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            format!("error: engine panic: {s} [{}]", c.stack.iter().rev().take(3).cloned().collect::<Vec<_>>().join(" < "))
        }
    };
    if cfg.trace > 0 {
        let mut v: Vec<_> = c.refuse_log.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for (k, n) in v.iter().take(15) {
            eprintln!("REFUSED {n} {k}");
        }
        let mut v: Vec<_> = c.fork_log.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for (k, n) in v.iter().take(15) {
            eprintln!("FORKED {n} {k}");
        }
    }
    let mut viol = vec![];
    for v in &c.violations {
        viol.push(format!("{{\"id\":{},\"kind\":{},\"realised\":{},\"model\":{}}}", js(&v.id), js(&v.kind), v.realised, jl(&v.model)));
    }
    let mut probes = vec![];
    if matches!(r, Ok(Err(exec::Stop::Unsupported(_)))) {
        for l in c.probe() {
            probes.push(jl(&l));
        }
    }
    let mut samples = vec![];
    for s in &c.samples {
        let obs: Vec<String> = s.obs.iter().map(|(t, h)| format!("{t} {h}")).collect();
        samples.push(format!("{{\"model\":{},\"obs\":{}}}", jl(&s.model), jl(&obs)));
    }
    let asserts: Vec<String> = c.assert_ids.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
    let covers: Vec<String> = c.covers.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
    let mut fns: Vec<String> = c.funcs.keys().map(|k| exec::short(k)).collect();
    fns.sort();
    fns.dedup();
    let s = &c.s.stats;
    format!(
        "{{\"job\":{},\"entry\":{},\"status\":{},\"secs\":{:.3},\"steps\":{},\"paths\":{},\"forks\":{},\"merges\":{},\"refused\":{},\"terms\":{},\
         \"asserts_struct\":{},\"asserts_smt\":{},\"asserts\":{{{}}},\"covers\":{{{}}},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"fast\":{},\
         \"solver_secs\":{:.3},\"max_query\":{:.3},\"functions\":{},\"violations\":[{}],\"samples\":[{}],\"probes\":[{}]}}",
        js(&id),
        js(line),
        js(&status),
        t0.elapsed().as_secs_f64(),
        c.steps,
        c.paths,
        c.forks,
        c.merges,
        c.refused,
        c.a.nodes.len(),
        c.asserts_struct,
        c.asserts_smt,
        asserts.join(","),
        covers.join(","),
        s.queries,
        s.sat,
        s.unsat,
        s.unknown,
        s.cached,
        s.fast,
        s.time.as_secs_f64(),
        s.max.as_secs_f64(),
        jl(&fns),
        viol.join(","),
        samples.join(","),
        probes.join(",")
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut cfg = Cfg {
        solver: vec!["z3-new".into(), "-in".into()],
        timeout_ms: 60_000,
        steps: 100_000_000,
        job_secs: 600,
        samples: 1,
        trace: 0,
        seed: 1,
        no_merge: false,
        dump: None,
    };
    let mut threads = 8;
    let mut total = 3600;
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        let val = || args[i + 1].clone();
        match args[i].as_str() {
            "--threads" => threads = val().parse().unwrap(),
            "--solver" => cfg.solver = val().split_whitespace().map(|s| s.to_string()).collect(),
            "--timeout-ms" => cfg.timeout_ms = val().parse().unwrap(),
            "--no-merge" => cfg.no_merge = val() != "0",
            "--steps" => cfg.steps = val().parse().unwrap(),
            "--job-secs" => cfg.job_secs = val().parse().unwrap(),
            "--total-secs" => total = val().parse().unwrap(),
            "--samples" => cfg.samples = val().parse().unwrap(),
            "--trace" => cfg.trace = val().parse().unwrap(),
            "--seed" => cfg.seed = val().parse().unwrap(),
            "--dump" => cfg.dump = Some(val()),
            _ => {
                pos.push(args[i].clone());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let m = Arc::new(ir::Module::load(&pos[0]).expect("IR"));
    let text = std::fs::read_to_string(&pos[1]).expect("jobs");
    let jobs: Arc<Vec<String>> = Arc::new(text.lines().filter(|l| !l.trim().is_empty()).map(|s| s.to_string()).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(()));
    let end = Instant::now() + Duration::from_secs(total);
    std::panic::set_hook(Box::new(|i| eprintln!("engine panic: {i}")));
    let mut hs = vec![];
    for _ in 0..threads.min(jobs.len()).max(1) {
        let (m, jobs, next, out, cfg) = (m.clone(), jobs.clone(), next.clone(), out.clone(), cfg.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= jobs.len() {
                        break;
                    }
                    let r = job(&m, &jobs[k], &cfg, end);
                    let _g = out.lock().unwrap();
                    println!("{r}");
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
}
