//! Search over runs, reports, replays and evidence.
use crate::exec::{self, Fail, Stats};
use crate::gen;
use crate::scenario::{Scenario, Step};
use crate::shrink::shrink;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;

/// Runs are limited in time of processor, those which wait forever are limited by this.
const STUCK: Duration = Duration::from_secs(240);

/// Runs of the quick tier, chosen to take about the same time for every property.
fn budget(prop: &str) -> u64 {
    match prop {
        "C01" | "C02" | "C03" => 14000,
        "C04" => 12000,
        "C05" => 7000,
        "C06" => 16000,
        "C07" | "C08" | "C09" | "C10" | "C21" => 12000,
        "C11" => 8000,
        "C12" => 12000,
        "C13" | "C14" => 24000,
        "C15" => 12000,
        "C16" => 7000,
        "C17" => 18000,
        "C18" => 7000,
        "C19" => 2500,
        "C20" => 24000,
        "C22" => 14000,
        "C23" => 12000,
        _ => 0,
    }
}

fn root() -> PathBuf {
    match std::env::var("SIMCHECK_ROOT") {
        Ok(path) => PathBuf::from(path),
        Err(_) => PathBuf::from("."),
    }
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("path of executable")
}

fn verdict(result: &Result<(), Fail>) -> Value {
    match result {
        Ok(()) => json!({"ok": true}),
        Err(f) => json!({
            "ok": false,
            "class": f.class,
            "step": if f.step == usize::MAX { Value::Null } else { json!(f.step) },
            "message": f.message
        }),
    }
}

// ---------------------------------------------------------------- worker

fn say(line: &str) {
    let mut out = std::io::stdout().lock();
    let _ = writeln!(out, "{line}");
    let _ = out.flush();
}

/// Explores every 8th run until the first failure.
pub fn worker(prop: &str, base: u64, first: u64, runs: u64, seconds: u64) -> i32 {
    exec::limit_memory();
    let until = Instant::now() + Duration::from_secs(seconds);
    let mut total = Stats::default();
    let mut done = 0u64;
    let mut traces = HashSet::new();
    let mut abandoned: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = first;
    while i < runs && Instant::now() < until {
        say(&format!("B {i}"));
        let (result, stats) = match std::panic::catch_unwind(|| {
            let sc = gen::scenario(prop, base, i);
            exec::run(&sc, exec::LIMIT)
        }) {
            Ok(outcome) => outcome,
            Err(_) => {
                say(&format!("H {i}"));
                return 2;
            }
        };
        done += 1;
        if (stats.changes >= 2 || stats.messages > 0) && stats.checks > 0 {
            traces.insert(stats.trace);
        }
        if let Some(why) = stats.abandoned.clone() {
            *abandoned.entry(why).or_default() += 1;
        }
        total.merge(stats);
        if result.is_err() {
            let mut line = verdict(&result);
            line["run"] = json!(i);
            say(&format!("F {line}"));
            break;
        }
        i += WORKERS;
    }
    let mut states: Vec<u64> = total.states.iter().copied().collect();
    states.sort_unstable();
    let stats = json!({
        "runs": done,
        "frames": total.frames,
        "events": total.events,
        "messages": total.messages,
        "checks": total.checks,
        "micros": total.micros,
        "changes": total.changes,
        "faults": total.faults,
        "probes": total.probes,
        "abandoned": abandoned,
        "states": states,
        "traces": traces.iter().collect::<Vec<_>>(),
    });
    say(&format!("S {stats}"));
    0
}

// ---------------------------------------------------------------- single evaluations

fn load(path: &str) -> Result<Value, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    serde_json::from_str(&text).map_err(|e| format!("{path}: {e}"))
}

/// The recorded scenario, or its seed if it has parts that cannot be written down.
fn recorded(file: &Value) -> Result<Scenario, String> {
    if let Ok(sc) = serde_json::from_value::<Scenario>(file["scenario"].clone()) {
        return Ok(sc);
    }
    let prop = file["property"].as_str().ok_or("no property")?;
    let base = file["base"].as_u64().ok_or("no base seed")?;
    let run = file["run"].as_u64().ok_or("no run")?;
    Ok(gen::scenario(prop, base, run))
}

/// Executes the scenario of the file and prints the verdict.
pub fn eval(path: &str, seconds: u64) -> i32 {
    exec::limit_memory();
    match load(path).and_then(|file| recorded(&file)) {
        Ok(sc) => {
            let (result, stats) = exec::run(&sc, seconds);
            let mut line = verdict(&result);
            line["trace"] = json!(format!("{:016x}", stats.trace));
            say(&line.to_string());
            0
        }
        Err(error) => {
            eprintln!("harness: {error}");
            2
        }
    }
}

/// Outcome of the scenario executed by its own process: class of failure and report.
fn evaluate(path: &Path, seconds: u64) -> Result<Option<Value>, String> {
    let mut child = Command::new(exe())
        .arg("eval")
        .arg(path)
        .arg(seconds.to_string())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let start = Instant::now();
    let status = loop {
        match child.try_wait().map_err(|e| e.to_string())? {
            Some(status) => break status,
            None if start.elapsed() > STUCK => {
                let _ = child.kill();
                let _ = child.wait();
                return Ok(Some(json!({
                    "class": "hang", "step": null, "message": "the run does not end"
                })));
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    match status.code() {
        Some(0) => {
            let mut line = String::new();
            let mut out = BufReader::new(child.stdout.take().unwrap());
            out.read_line(&mut line).map_err(|e| e.to_string())?;
            let verdict: Value = serde_json::from_str(&line).map_err(|e| e.to_string())?;
            Ok(if verdict["ok"] == json!(true) { None } else { Some(verdict) })
        }
        Some(code) => Err(format!("evaluation ended with code {code}")),
        None => Ok(Some(json!({
            "class": "crash", "step": null, "message": format!("the process died: {status}")
        }))),
    }
}

/// Writes the smallest scenario with the same class of failure found in time.
pub fn minimise(input: &str, output: &str, class: &str, seconds: u64) -> i32 {
    exec::limit_memory();
    let sc = match load(input).and_then(|file| recorded(&file)) {
        Ok(sc) => sc,
        Err(error) => {
            eprintln!("harness: {error}");
            return 2;
        }
    };
    let output = Path::new(output);
    // loops without end are found in small scenarios soon
    let limit = if class == "hang" { 2 } else { exec::LIMIT };
    let same = |sc: &Scenario| {
        let file = json!({ "scenario": sc }).to_string();
        let failed = match std::panic::catch_unwind(|| exec::run(sc, limit)) {
            Ok((Err(f), _)) => f.class == class,
            _ => false,
        };
        if failed {
            let part = output.with_extension("part");
            let _ = std::fs::write(&part, &file);
            let _ = std::fs::rename(&part, output);
        }
        failed
    };
    let (_, evals) = shrink(&sc, Duration::from_secs(seconds), &same);
    say(&format!("{evals}"));
    0
}

pub fn replay(path: &str) -> i32 {
    let file = match load(path) {
        Ok(file) => file,
        Err(error) => {
            eprintln!("harness: {error}");
            return 2;
        }
    };
    match evaluate(Path::new(path), exec::LIMIT) {
        Err(error) => {
            eprintln!("harness: {error}");
            2
        }
        Ok(None) => {
            println!("the recorded scenario passes");
            0
        }
        Ok(Some(found)) => {
            println!("{}: {}", found["class"].as_str().unwrap_or(""), found["message"].as_str().unwrap_or(""));
            if found["class"] == file["class"] && found["step"] == file["step"] && found["message"] == file["message"] {
                println!("reproduced exactly as recorded");
            } else {
                println!("differs from the record: {}: {}", file["class"], file["message"]);
            }
            println!("VIOLATION property={} replay={path}", file["property"].as_str().unwrap_or(""));
            1
        }
    }
}

pub fn traces(prop: &str, from: u64, to: u64) -> i32 {
    let base = seed();
    for i in from..to {
        let sc = gen::scenario(prop, base, i);
        let (result, stats) = exec::run(&sc, exec::LIMIT);
        println!(
            "{prop} {i} {:016x} {} {} {}",
            stats.trace,
            stats.frames,
            stats.checks,
            verdict(&result)
        );
    }
    0
}

pub fn show(prop: &str, base: u64, run: u64) -> i32 {
    let sc = gen::scenario(prop, base, run);
    print_scenario(&sc);
    println!("{:?}", exec::run(&sc, exec::LIMIT).0);
    0
}

pub fn show_file(path: &str) -> i32 {
    match load(path).and_then(|file| recorded(&file)) {
        Ok(sc) => {
            print_scenario(&sc);
            println!("{:?}", exec::run(&sc, exec::LIMIT).0);
            0
        }
        Err(error) => {
            eprintln!("harness: {error}");
            2
        }
    }
}

fn story(sc: &Scenario) -> Vec<String> {
    let mut out = vec![];
    for (i, step) in sc.steps.iter().enumerate() {
        out.push(match step {
            Step::F(f) => {
                let mut line = format!("{i}: view {} +{} us, viewport {:?}, events {:?}", f.view, f.dt, f.vp, f.ev);
                if !f.faults.is_empty() {
                    line.push_str(&format!(", faults {:?}", f.faults));
                }
                line.push_str(&format!(", value {}", f.value));
                line
            }
            step => format!("{i}: {step:?}"),
        });
    }
    out
}

fn print_scenario(sc: &Scenario) {
    for view in &sc.views {
        println!("{}\n{}", view.html().replace('<', "\n<"), view.css());
    }
    for line in story(sc) {
        println!("{line}");
    }
}

// ---------------------------------------------------------------- check

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .map(|s| s as u64)
        .unwrap_or(1)
}

enum Event {
    Line(String),
    End,
}

struct Worker {
    child: Child,
    current: Option<u64>,
    since: Instant,
    ended: bool,
    finished: bool,
}

impl Worker {
    fn hangs(&self) -> bool {
        self.since.elapsed() > STUCK
    }
}

#[derive(Debug)]
struct Found {
    run: u64,
    class: String,
    step: Value,
    message: String,
}

pub fn check(prop: &str) -> i32 {
    if budget(prop) == 0 {
        eprintln!("harness: no check of {prop}");
        return 2;
    }
    let start = Instant::now();
    let base = seed();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let scale: f64 = std::env::var("SIMCHECK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let (runs, seconds) = match tier {
        "thorough" => (budget(prop) * 100, 560),
        _ => (((budget(prop) as f64) * scale) as u64, 200),
    };
    let (sender, receiver) = channel();
    let mut workers: Vec<Worker> = vec![];
    for w in 0..WORKERS {
        let mut child = Command::new(exe())
            .args(["worker", prop, &base.to_string(), &w.to_string(), &runs.to_string(), &seconds.to_string()])
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker process");
        let out = BufReader::new(child.stdout.take().unwrap());
        let sender = sender.clone();
        std::thread::spawn(move || {
            for line in out.lines() {
                match line {
                    Ok(line) => {
                        if sender.send((w as usize, Event::Line(line))).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = sender.send((w as usize, Event::End));
        });
        workers.push(Worker { child, current: None, since: Instant::now(), ended: false, finished: false });
    }
    let mut found: Vec<Found> = vec![];
    let mut broken: Option<String> = None;
    let mut stats: Vec<Value> = vec![];
    while workers.iter().any(|w| !w.ended) && broken.is_none() {
        match receiver.recv_timeout(Duration::from_millis(200)) {
            Ok((w, Event::Line(line))) => {
                let worker = &mut workers[w];
                let (kind, rest) = line.split_at(line.len().min(2));
                match kind.trim() {
                    "B" => {
                        worker.current = rest.parse().ok();
                        worker.since = Instant::now();
                    }
                    "F" => {
                        let f: Value = serde_json::from_str(rest).expect("report of worker");
                        found.push(Found {
                            run: f["run"].as_u64().unwrap(),
                            class: f["class"].as_str().unwrap().to_string(),
                            step: f["step"].clone(),
                            message: f["message"].as_str().unwrap().to_string(),
                        });
                        worker.current = None;
                    }
                    "S" => {
                        stats.push(serde_json::from_str(rest).expect("stats of worker"));
                        worker.current = None;
                        worker.finished = true;
                    }
                    "H" => broken = Some(format!("run {rest} failed inside of the harness")),
                    _ => {}
                }
            }
            Ok((w, Event::End)) => {
                let worker = &mut workers[w];
                worker.ended = true;
                let status = worker.child.wait();
                if worker.finished {
                    continue;
                }
                match (worker.current, status) {
                    (Some(run), Ok(status)) if status.code().is_none() => found.push(Found {
                        run,
                        class: "crash".to_string(),
                        step: Value::Null,
                        message: format!("the process died: {status}"),
                    }),
                    (_, status) => broken = Some(format!("worker {w} ended: {status:?}")),
                }
            }
            Err(RecvTimeoutError::Timeout) => {}
            Err(RecvTimeoutError::Disconnected) => break,
        }
        // only the first failing run is reported
        let first = found.iter().map(|f| f.run).min();
        for worker in workers.iter_mut().filter(|w| !w.ended && !w.finished) {
            if let (Some(run), true) = (worker.current, worker.hangs()) {
                found.push(Found {
                    run,
                    class: "hang".to_string(),
                    step: Value::Null,
                    message: "the run does not end".to_string(),
                });
                worker.finished = true;
                let _ = worker.child.kill();
            } else if let (Some(run), Some(first)) = (worker.current, first) {
                if run > first {
                    worker.finished = true;
                    let _ = worker.child.kill();
                }
            }
        }
    }
    for worker in &mut workers {
        let _ = worker.child.kill();
        let _ = worker.child.wait();
    }
    if let Some(reason) = broken {
        eprintln!("harness: {reason}");
        return 2;
    }
    found.sort_by_key(|f| f.run);
    let explored = start.elapsed();
    let mut code = 0;
    let mut violations = 0;
    let mut reports = vec![];
    for finding in known_findings(prop) {
        match evaluate(&root().join(&finding.replay), 8) {
            Ok(None) => {}
            Ok(Some(verdict)) if verdict["class"] == json!(finding.class) => {
                println!("KNOWN-FINDING: property={prop} {}", finding.what);
            }
            Ok(Some(verdict)) => {
                // the listed input fails in another way
                code = 1;
                violations += 1;
                reports.push(json!({"replay": finding.replay, "class": verdict["class"], "message": verdict["message"]}));
                println!("VIOLATION property={prop} replay={}", root().join(&finding.replay).display());
            }
            Err(error) => {
                eprintln!("harness: {}: {error}", finding.replay);
                return 2;
            }
        }
    }
    if let Some(first) = found.first() {
        violations += 1;
        code = 1;
        let path = report(prop, base, first);
        reports.push(json!({"replay": path, "class": first.class, "run": first.run, "message": first.message}));
        let message: String = first.message.chars().take(1500).collect();
        println!("run {} (seed {base}): {}: {message}", first.run, first.class);
        println!("VIOLATION property={prop} replay={path}");
    }
    evidence(prop, tier, base, runs, &stats, explored, start.elapsed(), violations, reports);
    code
}

struct Finding {
    replay: String,
    class: String,
    what: String,
}

/// Lines `open: property=ID replay=FILE class=CLASS what fails` of known-findings.txt.
fn known_findings(prop: &str) -> Vec<Finding> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let parts: Vec<&str> = line.splitn(5, ' ').collect();
        if let ["open:", property, replay, class, what] = parts.as_slice() {
            if property.strip_prefix("property=") == Some(prop) {
                out.push(Finding {
                    replay: replay.trim_start_matches("replay=").to_string(),
                    class: class.trim_start_matches("class=").to_string(),
                    what: what.to_string(),
                });
            }
        }
    }
    out
}

/// Writes the replay file, minimised when it is possible in time.
fn report(prop: &str, base: u64, found: &Found) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{base}-{}.json", found.run));
    let sc = gen::scenario(prop, base, found.run);
    let mut file = json!({
        "property": prop,
        "base": base,
        "run": found.run,
        "class": found.class,
        "step": found.step,
        "message": found.message,
        "minimised": false,
        "scenario": sc,
    });
    let write = |file: &Value| std::fs::write(&path, serde_json::to_string_pretty(file).unwrap());
    if let Err(error) = write(&file) {
        eprintln!("harness: {}: {error}", path.display());
    }
    let small = path.with_extension("small");
    let _ = std::fs::remove_file(&small);
    let seconds = if found.class == "hang" { 60 } else { 30 };
    let child = Command::new(exe())
        .arg("shrink")
        .args([&path, &small])
        .args([&found.class, &seconds.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    if let Ok(mut child) = child {
        let until = Instant::now() + Duration::from_secs(seconds + 10);
        while Instant::now() < until {
            match child.try_wait() {
                Ok(None) => std::thread::sleep(Duration::from_millis(20)),
                _ => break,
            }
        }
        let _ = child.kill();
        let _ = child.wait();
    }
    // the report must be reproduced by the file itself
    if let Ok(small_file) = load(&small.to_string_lossy()) {
        if let Ok(Some(verdict)) = evaluate(&small, exec::LIMIT) {
            if verdict["class"] == json!(found.class) {
                file["scenario"] = small_file["scenario"].clone();
                file["step"] = verdict["step"].clone();
                file["message"] = verdict["message"].clone();
                file["minimised"] = json!(true);
                if let Ok(sc) = recorded(&file) {
                    file["sources"] = sc
                        .views
                        .iter()
                        .map(|v| json!({"html": v.html(), "css": v.css()}))
                        .collect();
                    file["story"] = json!(story(&sc));
                }
                let _ = write(&file);
            }
        }
    }
    for extension in ["small", "part"] {
        let _ = std::fs::remove_file(path.with_extension(extension));
    }
    path.display().to_string()
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    base: u64,
    planned: u64,
    stats: &[Value],
    explored: Duration,
    wall: Duration,
    violations: u64,
    reports: Vec<Value>,
) {
    let sum = |key: &str| stats.iter().map(|s| s[key].as_u64().unwrap_or(0)).sum::<u64>();
    let table = |key: &str| {
        let mut out: BTreeMap<String, u64> = BTreeMap::new();
        for s in stats {
            for (k, v) in s[key].as_object().into_iter().flatten() {
                *out.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
            }
        }
        out
    };
    let mut states = HashSet::new();
    for s in stats {
        states.extend(s["states"].as_array().into_iter().flatten().filter_map(|v| v.as_u64()));
    }
    let mut traces = HashSet::new();
    for s in stats {
        traces.extend(s["traces"].as_array().into_iter().flatten().filter_map(|v| v.as_u64()));
    }
    let runs = sum("runs");
    let hours = explored.as_secs_f64().max(0.001) / 3600.0;
    let samples: Vec<Value> = [0, 1]
        .iter()
        .map(|run| {
            let sc = gen::scenario(prop, base, *run);
            let mut steps = story(&sc);
            let total = steps.len();
            steps.truncate(12);
            for step in &mut steps {
                if step.len() > 600 {
                    let cut = (0..600).rev().find(|i| step.is_char_boundary(*i)).unwrap_or(0);
                    step.truncate(cut);
                    step.push('…');
                }
            }
            json!({
                "run": run,
                "seed": sc.seed,
                "html": sc.views[0].html(),
                "css": sc.views[0].css(),
                "steps": total,
                "first_steps": steps,
            })
        })
        .collect();
    let stubs = json!({
        "real": "bumaga (template and stylesheet parsers, renderer, binding, cascade, animation, layout by taffy, events), compiled from the working tree of /repo",
        "simulated": "application (values and their channel), clock and frame schedule, input devices and window system, fonts (deterministic metrics), persistence of sources, hash seeds (getrandom), thread scheduling between updates of views"
    });
    let file = json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": traces.len(),
            "rule": "One case is one simulated session: generated template, stylesheet, history of values, frame times, viewport sizes, input events and faults, all decided by the seed and the number of the run. It is non-trivial if the oracle judged it at least once and the display changed at least twice or messages were reported; distinct if the digest of everything displayed and reported over the session differs from that of all other runs.",
            "samples": samples,
            "planned_runs": planned,
            "runs_per_hour": (runs as f64 / hours).round(),
            "seeds_per_hour": (runs as f64 / hours).round(),
            "simulated_seconds": sum("micros") as f64 / 1e6,
            "frames": sum("frames"),
            "input_events": sum("events"),
            "messages": sum("messages"),
            "oracle_judgements": sum("checks"),
            "faults_injected": table("faults"),
            "probes": table("probes"),
            "histories_left_domain_of_reference": table("abandoned"),
            "display_changes": sum("changes"),
            "distinct_display_states": states.len(),
            "distinct_states_measure": "digest of structure, contents, attributes, main colours, fonts, positions and sizes of all shown elements after an update",
            "components": stubs,
            "reports": reports,
        },
        "assumptions": [
            "Inputs stay in the supported subset of templates and stylesheets described in DESIGN.md.",
            "Fonts given by the application are deterministic.",
            "taffy computes layout correctly from styles and measured sizes; views are compared with each other and against styles, not with another layout engine."
        ],
        "wall_s": wall.as_secs_f64(),
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}.json"));
    if let Err(error) = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()) {
        eprintln!("harness: {}: {error}", path.display());
    }
}
