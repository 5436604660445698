//! Oracles: one scenario is executed against the real views and the references.
use crate::anim::{read, Probes, Times};
use crate::bind::{attach, compare, kinds, Exp, Expect, Info, Wrong};
use crate::casc::{cascade, lengths, look_diff, near, Ctx, State};
use crate::ptr::{cursor_name, message_event, message_key, Expected, Ptr};
use crate::rng::{mix, Fnv};
use crate::scenario::*;
use crate::sim::{create, set_hash_seed, El, Look, Out, Sim, SimFonts, Snap};
use bumaga::{Element, Fonts, InputEvent, MouseButtons};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write;
use std::fs::File;
use std::io::{Read, Write as _};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fail {
    pub class: String,
    pub step: usize,
    pub message: String,
}

fn fail<T>(class: &str, step: usize, message: String) -> Result<T, Fail> {
    Err(Fail { class: class.to_string(), step, message })
}

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Stats {
    pub frames: u64,
    pub events: u64,
    pub messages: u64,
    pub checks: u64,
    pub micros: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub trace: u64,
    pub changes: u64,
    last: u64,
    pub abandoned: Option<String>,
}

impl Stats {
    fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_default() += 1;
    }

    fn frame(&mut self, frame: &Frame, snap: &Snap, out: &Out) {
        self.frames += 1;
        self.micros = self.micros.saturating_add(frame.dt);
        self.events += frame.ev.len() as u64;
        self.messages += out.messages.len() as u64;
        let faults: std::collections::BTreeSet<&String> = frame.faults.iter().collect();
        for fault in faults {
            *self.faults.entry(fault.clone()).or_default() += 1;
        }
        let state = digest(snap);
        if state != self.last {
            self.changes += 1;
        }
        self.last = state;
        self.states.insert(state);
        let mut fnv = Fnv(self.trace ^ state);
        for message in &out.messages {
            let _ = write!(fnv, "{message}");
        }
        self.trace = fnv.0;
    }

    fn abandon(&mut self, why: &'static str) {
        self.abandoned = Some(why.to_string());
    }
}

/// Digest of everything displayed.
pub fn digest(snap: &Snap) -> u64 {
    let mut fnv = Fnv::new();
    for e in &snap.0 {
        fnv.add(e.k.as_bytes());
        fnv.add(e.tag.as_bytes());
        if let Some(text) = &e.text {
            fnv.add(text.as_bytes());
        }
        for (k, v) in &e.attrs {
            fnv.add(k.as_bytes());
            fnv.add(v.as_bytes());
        }
        fnv.add(&e.look.color);
        fnv.add(&[e.look.visible as u8, e.look.pointer_events as u8, e.look.layers.len() as u8]);
        for layer in &e.look.layers {
            fnv.add(&layer.color);
        }
        for n in [e.pos[0], e.pos[1], e.size[0], e.size[1], e.total_opacity, e.look.font.size] {
            fnv.add(&n.to_bits().to_le_bytes());
        }
    }
    fnv.0
}

/// Executes the scenario by its own process, as the first thing it does: nothing global that
/// is left by other runs can change the outcome.
pub fn run(sc: &Scenario, seconds: u64) -> (Result<(), Fail>, Stats) {
    let outcome = pristine(seconds, || {
        isolated(sc.hash, {
            let sc = sc.clone();
            move || {
                let mut stats = Stats::default();
                let result = guarded("panic", || check(&sc, &mut stats));
                (result, stats)
            }
        })
    });
    match outcome {
        Ok(outcome) => outcome,
        Err(fail) => (Err(fail), Stats::default()),
    }
}

fn isolated<T: Send + 'static>(hash: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    let handle = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            set_hash_seed(hash);
            f()
        })
        .expect("thread");
    match handle.join() {
        Ok(result) => result,
        Err(error) => std::panic::resume_unwind(error),
    }
}

/// Seconds of processor: a run takes milliseconds, runs that do not end by this time never do.
/// The time of processor does not depend on what else the machine does.
pub const LIMIT: u64 = 40;

#[repr(C)]
struct Limit {
    current: u64,
    max: u64,
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const Limit) -> i32;
}

fn limit_time(seconds: u64) {
    const RLIMIT_CPU: i32 = 0;
    unsafe {
        setrlimit(RLIMIT_CPU, &Limit { current: seconds, max: seconds + 1 });
    }
}

/// Runaway allocations end the run, not the machine; crashes leave no core files.
pub fn limit_memory() {
    const RLIMIT_CORE: i32 = 4;
    const RLIMIT_AS: i32 = 9;
    unsafe {
        setrlimit(RLIMIT_AS, &Limit { current: 4 << 30, max: 4 << 30 });
        setrlimit(RLIMIT_CORE, &Limit { current: 0, max: 0 });
    }
}

extern "C" {
    fn fork() -> i32;
    fn pipe(ends: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn prctl(option: i32, value: u64, a: u64, b: u64, c: u64) -> i32;
    fn _exit(code: i32) -> !;
}

/// Result of the function executed by a copy of this process, which is limited in time
/// of processor. Other threads of this process must only wait.
fn pristine<T: Serialize + DeserializeOwned>(seconds: u64, f: impl FnOnce() -> T) -> Result<T, Fail> {
    const PR_SET_PDEATHSIG: i32 = 1;
    const SIGKILL: i32 = 9;
    const SIGXCPU: i32 = 24;
    let mut ends = [0; 2];
    assert_eq!(unsafe { pipe(ends.as_mut_ptr()) }, 0, "harness: pipe");
    let [read, write] = ends;
    let pid = unsafe { fork() };
    assert!(pid >= 0, "harness: fork");
    let mut read = unsafe { File::from_raw_fd(read) };
    let mut write = unsafe { File::from_raw_fd(write) };
    if pid == 0 {
        drop(read);
        unsafe { prctl(PR_SET_PDEATHSIG, SIGKILL as u64, 0, 0, 0) };
        limit_time(seconds);
        let code = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(result) => {
                let result = serde_json::to_vec(&result).expect("harness: result");
                match write.write_all(&result) {
                    Ok(_) => 0,
                    Err(_) => 101,
                }
            }
            Err(_) => 101,
        };
        unsafe { _exit(code) }
    }
    drop(write);
    let mut result = vec![];
    let received = read.read_to_end(&mut result);
    let mut status = 0;
    while unsafe { waitpid(pid, &mut status, 0) } < 0 {
        let error = std::io::Error::last_os_error();
        assert_eq!(error.kind(), std::io::ErrorKind::Interrupted, "harness: waitpid, {error}");
    }
    match (status & 0x7f, (status >> 8) & 0xff) {
        (0, 0) => {
            received.expect("harness: result");
            Ok(serde_json::from_slice(&result).expect("harness: result"))
        }
        (0, code) => panic!("harness: a run ended with code {code}"),
        (SIGXCPU, _) => fail("hang", usize::MAX, "the run does not end".to_string()),
        (signal, _) => fail("crash", usize::MAX, format!("the process died by signal {signal}")),
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, bool)>> = const { RefCell::new(None) };
}

/// Panics are recorded with their location: those of the harness are not failures.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let location = info.location().map(|l| l.to_string()).unwrap_or_default();
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let own = location.starts_with("src/") || location.starts_with("/verif");
        if own {
            eprintln!("harness panic: {message} at {location}");
        }
        PANIC.with(|cell| *cell.borrow_mut() = Some((format!("{message} at {location}"), own)));
    }));
}

fn guarded<T>(class: &str, f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(result) => result,
        Err(error) => {
            let (message, own) = PANIC
                .with(|cell| cell.borrow_mut().take())
                .unwrap_or(("panic".to_string(), false));
            if own {
                std::panic::resume_unwind(error);
            }
            fail(class, usize::MAX, format!("panic: {message}"))
        }
    }
}

fn check(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    match sc.prop.as_str() {
        "C01" | "C02" | "C03" => mirror(sc, stats),
        "C04" => survive(sc, stats),
        "C05" => restart(sc, stats),
        "C06" | "C22" => styles(sc, stats),
        "C07" | "C08" | "C09" | "C10" | "C11" | "C21" => pointer(sc, stats),
        "C12" => batches(sc, stats),
        "C13" | "C14" => time(sc, stats),
        "C15" => complete(sc, stats),
        "C16" => reproducible(sc, stats),
        "C17" => identifiers(sc, stats),
        "C18" => reload(sc, stats),
        "C19" => isolation(sc, stats),
        "C20" => geometry(sc, stats),
        "C23" => measure(sc, stats),
        prop => panic!("harness: no oracle of {prop}"),
    }
}

fn start(source: &Source, step: usize) -> Result<Sim, Fail> {
    let mut source = source.clone();
    if step > 0 && source.style != 0 {
        // saved by another editor
        source.style = mix(source.style, step as u64);
    }
    Sim::new(&source).or_else(|error| fail("create", step, format!("view is not created: {error}")))
}

fn frames(sc: &Scenario) -> impl Iterator<Item = (usize, &Frame)> {
    sc.steps.iter().enumerate().filter_map(|(i, step)| match step {
        Step::F(frame) => Some((i, frame)),
        _ => None,
    })
}

fn step(sim: &mut Sim, frame: &Frame, i: usize, stats: &mut Stats) -> Result<Out, Fail> {
    match sim.frame(frame) {
        Ok(out) => {
            stats.frame(frame, &sim.snap, &out);
            Ok(out)
        }
        Err(error) => fail("update", i, error),
    }
}

fn expected(source: &Source, value: &Value) -> Exp {
    Expect { tpl: &source.tpl, value, tr: source.tr, all: false }.tree()
}

type Kinds = HashMap<String, crate::bind::Kind>;

/// Structure as expected by the reference of bindings.
fn structure(source: &Source, value: &Value, snap: &Snap, kinds: &Kinds) -> Option<Exp> {
    let exp = expected(source, value);
    let mut wrong = vec![];
    compare(&exp, snap, kinds, &mut wrong);
    if wrong.iter().any(|wrong| !matches!(wrong, Wrong::Content(_))) {
        return None;
    }
    Some(exp)
}

// ---------------------------------------------------------------- C01, C02, C03

fn mirror(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let source = &sc.views[0];
    let kinds = kinds(&source.tpl);
    let mut sim = start(source, 0)?;
    for (i, frame) in frames(sc) {
        step(&mut sim, frame, i, stats)?;
        if frame.bad {
            stats.probe("frame with corrupted value");
            continue;
        }
        let exp = expected(source, &frame.value);
        let mut wrong = vec![];
        compare(&exp, &sim.snap, &kinds, &mut wrong);
        stats.checks += 1;
        for wrong in wrong {
            let (class, message) = match (&wrong, sc.prop.as_str()) {
                (Wrong::Content(message), "C01") => ("content", message),
                (Wrong::Cond(message), "C02") => ("condition", message),
                (Wrong::Rep(message), "C03") => ("repeat", message),
                // item of a copy is displayed by its content
                (Wrong::Content(message), "C03") if message.contains("(copy)") => {
                    ("repeat", message)
                }
                (Wrong::Structure(message), "C02" | "C03") => ("structure", message),
                _ => continue,
            };
            return fail(class, i, message.clone());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn survive(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let source = &sc.views[0];
    let mut sim = start(source, 0)?;
    let mut twin = start(source, 0)?;
    let mut good = json!({});
    // frames since the last corrupted value
    let mut since = usize::MAX;
    for (i, frame) in frames(sc) {
        let events = twin.resolve(&frame.ev);
        if !frame.bad {
            good = frame.value.clone();
        }
        let twin_out = match twin.update(frame.dt, frame.vp, events.clone(), &good) {
            Ok(out) => out,
            Err(error) => return fail("update", i, error),
        };
        let out = match sim.update(frame.dt, frame.vp, events, &frame.value) {
            Ok(out) => out,
            Err(error) => return fail("update", i, error),
        };
        stats.frame(frame, &sim.snap, &out);
        if frame.bad {
            since = 0;
            continue;
        }
        if since == 0 {
            stats.probe("recovered after corrupted value");
        }
        since = since.saturating_add(1);
        if let Some(diff) = sim.snap.diff(&twin.snap) {
            return fail("trace", i, format!("after malformed data: {diff}"));
        }
        stats.checks += 1;
        if since > 1 && out.messages != twin_out.messages {
            return fail(
                "messages",
                i,
                format!(
                    "after malformed data messages are {:?} instead of {:?}",
                    out.messages, twin_out.messages
                ),
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn quiesce(sim: &mut Sim, vp: [f32; 2], value: &Value) -> Result<(), String> {
    let out = InputEvent::MouseMove([-1.0e6, -1.0e6]);
    let both = [MouseButtons::Left, MouseButtons::Right];
    sim.update(0, vp, vec![out.clone()], value)?;
    sim.update(0, vp, both.map(InputEvent::MouseButtonUp).to_vec(), value)?;
    sim.update(0, vp, both.map(InputEvent::MouseButtonDown).to_vec(), value)?;
    sim.update(0, vp, both.map(InputEvent::MouseButtonUp).to_vec(), value)?;
    for _ in 0..6 {
        sim.update(100_000_000, vp, vec![], value)?;
    }
    sim.update(0, vp, vec![], value)?;
    Ok(())
}

fn settled(sim: &mut Sim, source: &Source, last: &Frame, i: usize, class: &str) -> Result<(), Fail> {
    let mut fresh = start(source, i)?;
    let ready = quiesce(sim, last.vp, &last.value).and_then(|_| quiesce(&mut fresh, last.vp, &last.value));
    if let Err(error) = ready {
        return fail("update", i, error);
    }
    if let Some(diff) = sim.snap.diff(&fresh.snap) {
        return fail(class, i, format!("not as of the fresh view: {diff}"));
    }
    Ok(())
}

fn restart(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let source = &sc.views[0];
    let mut sim = start(source, 0)?;
    let mut last: Option<&Frame> = None;
    for (i, s) in sc.steps.iter().enumerate() {
        match s {
            Step::F(frame) => {
                step(&mut sim, frame, i, stats)?;
                last = Some(frame);
            }
            Step::Restart(_) => {
                stats.probe("restarted");
                sim = start(source, i)?;
                last = None;
            }
            Step::Check => {
                if let Some(last) = last {
                    settled(&mut sim, source, last, i, "fresh")?;
                    stats.checks += 1;
                }
            }
            Step::Torn(..) => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- references of one view

struct Refs<'a> {
    source: &'a Source,
    kinds: Kinds,
    ptr: Ptr,
}

impl<'a> Refs<'a> {
    fn new(source: &'a Source) -> Self {
        Refs { source, kinds: kinds(&source.tpl), ptr: Ptr::new() }
    }

    /// Expected output, None if structure is not as expected.
    fn expect(&mut self, snap: &Snap, out: &Out, value: &Value) -> Option<Expected> {
        let exp = structure(self.source, value, snap, &self.kinds)?;
        let mut infos: HashMap<u64, Rc<Info>> = HashMap::new();
        attach(&exp, snap, &mut infos);
        Some(self.ptr.frame(snap, infos, &out.events, value, self.source.tr))
    }

    fn finish(&self, stats: &mut Stats) {
        for (name, n) in &self.ptr.probes {
            *stats.probes.entry(name.to_string()).or_default() += n;
        }
    }
}

// ---------------------------------------------------------------- C06, C22

fn styles(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let source = &sc.views[0];
    let mut sim = start(source, 0)?;
    let mut refs = Refs::new(source);
    let only_lengths = sc.prop == "C22";
    let none = HashMap::<u64, State>::new();
    let list: Vec<(usize, &Frame)> = frames(sc).collect();
    for (n, (i, frame)) in list.iter().enumerate() {
        let out = step(&mut sim, frame, *i, stats)?;
        let states = if only_lengths { &none } else { &refs.ptr.states };
        let ctx = Ctx { sheet: &source.css, vp: frame.vp, states };
        let reference = cascade(&sim.snap, &ctx);
        for (index, reference) in reference.iter().enumerate() {
            let (look, _, _) = match reference {
                Some(reference) => reference,
                None => continue,
            };
            let actual = &sim.snap.0[index].look;
            let diff = if only_lengths {
                lengths(actual).into_iter().zip(lengths(look)).find_map(|((name, a), (_, b))| {
                    if a.near(&b) {
                        None
                    } else {
                        Some(format!("{name} is {a:?}, expected {b:?}"))
                    }
                })
            } else {
                look_diff(actual, look)
            };
            stats.checks += 1;
            if let Some(diff) = diff {
                return fail("style", *i, format!("{} {diff}", sim.snap.path(index)));
            }
        }
        if only_lengths {
            let resized = n > 0 && list[n - 1].1.vp != frame.vp;
            if resized {
                let last = list[n - 1].1.vp;
                stats.probe(if last[0] != frame.vp[0] && last[1] != frame.vp[1] {
                    "both dimensions changed"
                } else {
                    "one dimension changed"
                });
            }
            if resized && (n % 3 == 0) || n + 1 == list.len() {
                // the same history with this viewport
                let mut twin = start(source, *i)?;
                for (_, past) in &list[..=n] {
                    let events = twin.resolve(&past.ev);
                    if let Err(error) = twin.update(past.dt, frame.vp, events, &past.value) {
                        return fail("update", *i, error);
                    }
                }
                if let Some(diff) = sim.snap.diff(&twin.snap) {
                    return fail("viewport", *i, format!("not as if viewport had not changed: {diff}"));
                }
            }
            continue;
        }
        match refs.expect(&sim.snap, &out, &frame.value) {
            Some(expected) if expected.values() == out.messages => {}
            Some(_) => {
                stats.abandon("state is not known");
                break;
            }
            None => {
                stats.abandon("structure is not as expected");
                break;
            }
        }
    }
    refs.finish(stats);
    Ok(())
}

// ---------------------------------------------------------------- C07 - C11, C21

fn relevant(prop: &str, event: &str) -> bool {
    match prop {
        "C07" => matches!(event, "onmouseenter" | "onmouseleave" | "onmousemove"),
        "C08" => matches!(event, "onclick" | "onmousedown" | "onmouseup" | "oncontextmenu"),
        "C09" => matches!(event, "onfocus" | "onblur" | "onkeydown" | "onkeyup" | "oninput"),
        "C10" => event.starts_with("ondrag") || event == "ondrop" || event == "onclick",
        _ => true,
    }
}

/// Parts of messages the property is about.
fn project(prop: &str, message: &Value) -> Value {
    let key = message_key(message).unwrap_or("?").to_string();
    let event = match message.as_object().and_then(|object| object.values().next()) {
        Some(event) => event,
        None => return json!([key]),
    };
    let target = &event["target"];
    match prop {
        "C07" => json!([
            key,
            event["position"],
            target["position"],
            target["size"],
            target["state"]["hover"]
        ]),
        "C08" => json!([key, event["position"], target["state"]["active"]]),
        "C09" => json!([key, event["key"], event["char"], target["state"]["focus"]]),
        "C10" => json!([key, event["position"]]),
        _ => json!([key]),
    }
}

fn list(messages: &[Value]) -> String {
    let items: Vec<String> = messages.iter().map(|m| m.to_string()).collect();
    format!("[{}]", items.join(", "))
}

fn first_difference(actual: &[Value], expected: &[Value]) -> String {
    let n = actual.iter().zip(expected).take_while(|(a, b)| a == b).count();
    let show = |list: &[Value]| match list.get(n) {
        Some(value) => value.to_string(),
        None => "nothing".to_string(),
    };
    format!("message {n} is {}, expected {}", show(actual), show(expected))
}

fn pointer(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let source = &sc.views[0];
    let prop = sc.prop.as_str();
    let mut sim = start(source, 0)?;
    let mut refs = Refs::new(source);
    let mut result = Ok(());
    for (i, frame) in frames(sc) {
        let out = step(&mut sim, frame, i, stats)?;
        let expected = match refs.expect(&sim.snap, &out, &frame.value) {
            Some(expected) => expected,
            None => {
                stats.abandon("structure is not as expected");
                break;
            }
        };
        stats.checks += 1;
        if prop == "C21" {
            if out.captured != expected.captured {
                result = fail(
                    "capture",
                    i,
                    format!("input captured: {}, expected {}", out.captured, expected.captured),
                );
                break;
            }
            if out.cursor != expected.cursor {
                result = fail(
                    "cursor",
                    i,
                    format!(
                        "cursor is {}, expected {}",
                        cursor_name(out.cursor),
                        cursor_name(expected.cursor)
                    ),
                );
                break;
            }
            continue;
        }
        let values = expected.values();
        if prop == "C11" {
            // which events happen is decided by other properties
            let (markers, bound) = markers(&source.tpl);
            if !bound {
                for message in &out.messages {
                    let key = message_key(message).unwrap_or("?");
                    if !markers.contains(key) {
                        return fail("key", i, format!("message {message} is not of the template"));
                    }
                }
            }
            let same = out.messages.len() == values.len()
                && out.messages.iter().zip(&expected.messages).all(|(actual, wanted)| {
                    // a marker in place of a bound key is the key of another event
                    let key = message_key(actual).unwrap_or("?");
                    match wanted.bound {
                        true => !markers.contains(key),
                        false => Some(key) == message_key(&wanted.value),
                    }
                });
            if !same {
                stats.abandon("events are not as expected");
                break;
            }
            if expected.messages.iter().any(|m| m.bound) {
                stats.probe("key of message from data");
            }
            if out.messages != values {
                result = fail("arguments", i, first_difference(&out.messages, &values));
                break;
            }
            continue;
        }
        let actual: Vec<Value> = out
            .messages
            .iter()
            .filter(|m| relevant(prop, message_event(m)))
            .map(|m| project(prop, m))
            .collect();
        let wanted: Vec<Value> = values
            .iter()
            .filter(|m| relevant(prop, message_event(m)))
            .map(|m| project(prop, m))
            .collect();
        if actual != wanted {
            result = fail(
                "events",
                i,
                format!(
                    "{} (reported {}, expected {})",
                    first_difference(&actual, &wanted),
                    list(&actual),
                    list(&wanted)
                ),
            );
            break;
        }
    }
    refs.finish(stats);
    result
}

/// Keys of messages written in the template, and whether it has others, bound to the data.
fn markers(tpl: &Template) -> (HashSet<String>, bool) {
    fn visit(node: &Node, out: &mut (HashSet<String>, bool)) {
        for (_, args) in &node.on {
            match args.first() {
                Some(Arg::Key(key)) => {
                    out.0.insert(key.clone());
                }
                _ => out.1 = true,
            }
        }
        for kid in &node.kids {
            if let Kid::El(kid) = kid {
                visit(kid, out);
            }
        }
    }
    let mut out = (HashSet::new(), false);
    visit(&tpl.body, &mut out);
    for comp in &tpl.comps {
        visit(comp, &mut out);
    }
    out
}

// ---------------------------------------------------------------- C12

fn batches(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let source = &sc.views[0];
    let mut one = start(source, 0)?;
    let mut two = start(source, 0)?;
    let list: Vec<(usize, &Frame)> = frames(sc).collect();
    let (_, first) = match list.first() {
        Some(first) => *first,
        None => return Ok(()),
    };
    let keep = |messages: Vec<Value>| -> Vec<Value> {
        messages
            .into_iter()
            .filter(|m| !matches!(message_event(m), "onmousemove" | "ondragover"))
            .collect()
    };
    let mut events: Vec<InputEvent> = vec![];
    let mut actual = vec![];
    let mut out = None;
    for (i, frame) in &list {
        let mut frame = (*frame).clone();
        frame.vp = first.vp;
        frame.value = first.value.clone();
        if events.is_empty() && one.frames == 0 {
            frame.ev.clear();
        }
        let o = step(&mut one, &frame, *i, stats)?;
        events.extend(o.events.iter().cloned());
        actual.extend(keep(o.messages.clone()));
        out = Some(o);
    }
    let last = list.len();
    let send = |sim: &mut Sim, events: Vec<InputEvent>| -> Result<Out, Fail> {
        match sim.update(10_000, first.vp, events, &first.value) {
            Ok(out) => Ok(out),
            Err(error) => fail("update", last, error),
        }
    };
    let mut expected = keep(send(&mut two, vec![])?.messages);
    let mut rest = events.as_slice();
    let mut two_out = None;
    for n in sc.parts.iter().copied().chain([usize::MAX]) {
        let n = n.min(rest.len());
        let o = send(&mut two, rest[..n].to_vec())?;
        rest = &rest[n..];
        expected.extend(keep(o.messages.clone()));
        two_out = Some(o);
    }
    stats.checks += 1;
    if actual != expected {
        return fail(
            "batches",
            last,
            format!(
                "other batches of the same events: {}",
                first_difference(&actual, &expected)
            ),
        );
    }
    // final state is observed by its consequences
    let (mut out, mut two_out) = (out.unwrap(), two_out.unwrap());
    let probes: Vec<Vec<InputEvent>> = vec![
        vec![],
        vec![InputEvent::KeyDown(bumaga::Keys::Enter), InputEvent::Char('x')],
        vec![InputEvent::MouseButtonUp(MouseButtons::Left)],
        vec![InputEvent::MouseMove([-1e6, -1e6])],
        vec![InputEvent::MouseButtonDown(MouseButtons::Left)],
        vec![],
    ];
    for (n, probe) in probes.into_iter().enumerate() {
        if n > 0 {
            if keep(out.messages.clone()) != keep(two_out.messages.clone()) {
                return fail(
                    "final state",
                    last,
                    format!(
                        "after other batches of the same events, probe {n}: {}",
                        first_difference(&keep(out.messages), &keep(two_out.messages))
                    ),
                );
            }
        }
        if (out.captured, out.cursor) != (two_out.captured, two_out.cursor) {
            return fail(
                "final state",
                last,
                format!(
                    "after other batches of the same events, probe {n}: captured {} cursor {} instead of {} {}",
                    out.captured,
                    cursor_name(out.cursor),
                    two_out.captured,
                    cursor_name(two_out.cursor)
                ),
            );
        }
        out = send(&mut one, probe.clone())?;
        two_out = send(&mut two, probe)?;
    }
    if let Some(diff) = one.snap.diff(&two.snap) {
        return fail("final state", last, format!("after other batches of the same events: {diff}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C13, C14

fn time(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let source = &sc.views[0];
    let mut sim = start(source, 0)?;
    let mut refs = Refs::new(source);
    let mut times = Times::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut dead: HashSet<u64> = HashSet::new();
    let mut probes = Probes(BTreeMap::new());
    let mut result = Ok(());
    'run: for (i, frame) in frames(sc) {
        let out = step(&mut sim, frame, i, stats)?;
        let ctx = Ctx { sheet: &source.css, vp: frame.vp, states: &refs.ptr.states };
        let reference = cascade(&sim.snap, &ctx);
        let shown: HashSet<u64> = sim.snap.0.iter().map(|e| e.node).collect();
        // time of hidden elements is not defined
        dead.extend(seen.difference(&shown).copied());
        seen.extend(shown);
        for (index, reference) in reference.iter().enumerate() {
            let e = &sim.snap.0[index];
            let (_, computed, vars) = match reference {
                Some(reference) => reference,
                None => continue,
            };
            if e.text.is_some() || dead.contains(&e.node) {
                continue;
            }
            let node = times.nodes.entry(e.node).or_default();
            let wants = node.frame(
                frame.dt as f64 / 1e6,
                computed,
                vars,
                &source.css,
                frame.vp,
                &e.look,
                &mut probes,
            );
            for want in wants {
                stats.checks += 1;
                let checked = match read(&e.look, &want.property) {
                    Some(actual) => want.check(&actual),
                    None => Err(format!("{} is not known, {}", want.property, want.why)),
                };
                if let Err(message) = checked {
                    result = fail("time", i, format!("{} {message}", sim.snap.path(index)));
                    break 'run;
                }
            }
        }
        match refs.expect(&sim.snap, &out, &frame.value) {
            Some(expected) if expected.values() == out.messages => {}
            Some(_) => {
                stats.abandon("state is not known");
                break;
            }
            None => {
                stats.abandon("structure is not as expected");
                break;
            }
        }
    }
    refs.finish(stats);
    for (name, n) in &probes.0 {
        *stats.probes.entry(name.to_string()).or_default() += n;
    }
    result
}

// ---------------------------------------------------------------- C15

fn complete(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let mut sim = start(&sc.views[0], 0)?;
    for (i, frame) in frames(sc) {
        step(&mut sim, frame, i, stats)?;
        stats.checks += 1;
        if let Err(error) = sim.snap.finite() {
            return fail("finite", i, error);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

type Shown = Result<(Snap, Vec<Value>, bool, String), String>;
type Record = Vec<(usize, Shown)>;

fn record(sim: &Sim, result: Result<Out, String>) -> Shown {
    result.map(|out| (sim.snap.clone(), out.messages, out.captured, cursor_name(out.cursor)))
}

fn differ(a: &Record, b: &Record) -> Option<(usize, String)> {
    for ((i, a), (_, b)) in a.iter().zip(b) {
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if let Some(diff) = a.0.diff(&b.0) {
                    return Some((*i, diff));
                }
                if a.1 != b.1 {
                    return Some((*i, first_difference(&a.1, &b.1)));
                }
                if a.2 != b.2 || a.3 != b.3 {
                    return Some((*i, "input capture or cursor".to_string()));
                }
            }
            (Err(a), Err(b)) if a == b => {}
            (Err(error), _) | (_, Err(error)) => return Some((*i, error.clone())),
        }
    }
    if a.len() != b.len() {
        return Some((a.len().min(b.len()), "number of frames".to_string()));
    }
    None
}

/// One of views alone.
fn solo(sc: &Scenario, view: usize, stats: &mut Stats) -> Result<Record, Fail> {
    let source = &sc.views[view];
    let mut sim = start(source, 0)?;
    let mut out = vec![];
    for (i, s) in sc.steps.iter().enumerate() {
        match s {
            Step::F(frame) if frame.view == view => {
                let result = sim.frame(frame);
                match &result {
                    Ok(out) => stats.frame(frame, &sim.snap, out),
                    Err(error) => return fail("update", i, error.clone()),
                }
                out.push((i, record(&sim, result)));
            }
            Step::Restart(owner) if *owner == view => sim = start(source, i)?,
            _ => {}
        }
    }
    Ok(out)
}

fn reproducible(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let first = solo(sc, 0, stats)?;
    for hash in &sc.hashes {
        let other = {
            let sc = sc.clone();
            isolated(*hash, move || guarded("panic", || solo(&sc, 0, &mut Stats::default())))?
        };
        stats.checks += first.len() as u64;
        if let Some((i, diff)) = differ(&first, &other) {
            return fail("hash", i, format!("with other seed of hash tables: {diff}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn identifiers(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    struct Carrier {
        k: String,
        id: String,
        hidden: bool,
        copy: bool,
    }
    fn collect(exp: &Exp, out: &mut Vec<Carrier>) {
        if let Some(id) = exp.attrs.get("id") {
            out.push(Carrier {
                k: exp.k.clone(),
                id: id.clone(),
                hidden: exp.hidden,
                copy: exp.hidden_copy,
            });
        }
        for kid in &exp.kids {
            collect(kid, out);
        }
    }
    let source = &sc.views[0];
    let kinds = kinds(&source.tpl);
    let mut sim = start(source, 0)?;
    // identifiers carried by elements with the marker at any time
    let mut ever: HashMap<String, HashSet<String>> = HashMap::new();
    let mut known: HashSet<String> = ["ida", "idb", "idc", "idd", "x-ida", "nothing"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for (i, frame) in frames(sc) {
        step(&mut sim, frame, i, stats)?;
        let exp = Expect { tpl: &source.tpl, value: &frame.value, tr: source.tr, all: true }.tree();
        let mut carriers = vec![];
        collect(&exp, &mut carriers);
        for carrier in &carriers {
            ever.entry(carrier.k.clone()).or_default().insert(carrier.id.clone());
            if !carrier.id.is_empty() {
                known.insert(carrier.id.clone());
            }
        }
        let visible = match structure(source, &frame.value, &sim.snap, &kinds) {
            Some(exp) => exp,
            None => {
                stats.abandon("structure is not as expected");
                return Ok(());
            }
        };
        drop(visible);
        // copies which are not shown do not follow the value
        let uncertain: HashSet<&String> = carriers
            .iter()
            .filter(|c| c.copy)
            .filter_map(|c| ever.get(&c.k))
            .flatten()
            .collect();
        let mut ids: Vec<&String> = known.iter().collect();
        ids.sort();
        for id in ids {
            let found = sim.view.get_element_by_id(id);
            stats.checks += 1;
            if let Some(found) = found {
                if found.attrs.get("id") != Some(id) {
                    return fail(
                        "wrong",
                        i,
                        format!(
                            "element found by {id:?} is {:?} with id {:?}",
                            found.attrs.get("k"),
                            found.attrs.get("id")
                        ),
                    );
                }
            }
            if uncertain.contains(id) {
                continue;
            }
            // ids of copies which are not shown are mixed from different values
            let mixed = |found: &Element| {
                let node = u64::from(found.node);
                let k = found.attrs.get("k");
                !sim.snap.0.iter().any(|e| e.node == node)
                    && carriers.iter().any(|c| c.copy && Some(&c.k) == k)
            };
            if found.map(mixed).unwrap_or(false) {
                continue;
            }
            let of: Vec<&Carrier> = carriers.iter().filter(|c| &c.id == id).collect();
            match (of.as_slice(), found) {
                ([], Some(found)) => {
                    return fail(
                        "stale",
                        i,
                        format!("no element carries {id:?}, found {:?}", found.attrs.get("k")),
                    )
                }
                ([one], None) => {
                    return fail("missing", i, format!("{:?} carries {id:?}, not found", one.k))
                }
                ([one], Some(found)) => {
                    let shown: Vec<usize> = (0..sim.snap.0.len())
                        .filter(|n| sim.snap.0[*n].attrs.get("id") == Some(id))
                        .collect();
                    if found.attrs.get("k") != Some(&one.k)
                        || (!one.hidden
                            && shown.iter().all(|n| sim.snap.0[*n].node != u64::from(found.node)))
                    {
                        return fail(
                            "wrong",
                            i,
                            format!("{:?} carries {id:?}, found {:?}", one.k, found.attrs.get("k")),
                        );
                    }
                    if !one.hidden && ever.values().filter(|ids| ids.contains(id)).count() > 1 {
                        stats.probe("identifier moved between elements");
                    }
                }
                _ => stats.probe("identifier carried by several elements"),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

fn tear(text: &str, other: &str, tear: &Tear) -> String {
    let boundary = |mut at: usize| {
        at = at.min(text.len());
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        at
    };
    let at = |part: f64| boundary((text.len() as f64 * part) as usize);
    match tear {
        Tear::None => text.to_string(),
        Tear::Cut(part) => text[..at(*part)].to_string(),
        Tear::Drop(part, n) => {
            let a = at(*part);
            let b = boundary(a + n);
            format!("{}{}", &text[..a], &text[b..])
        }
        Tear::Fill(part, n, c) => {
            let a = at(*part);
            let b = boundary(a + n);
            let fill: String = std::iter::repeat(*c).take(b - a).collect();
            format!("{}{}{}", &text[..a], fill, &text[b..])
        }
        Tear::Twice(part, n) => {
            let a = at(*part);
            let b = boundary(a + n);
            format!("{}{}", &text[..b], &text[a..])
        }
        Tear::Block(part, n) => {
            let delimiter = |c: char| "<>{}();:=\"/ \n".contains(c);
            let mut edges: Vec<usize> = text
                .char_indices()
                .filter(|(_, c)| delimiter(*c))
                .flat_map(|(i, c)| [i, i + c.len_utf8()])
                .collect();
            edges.dedup();
            let from = at(*part);
            let mut edges = edges.into_iter().skip_while(|edge| *edge < from);
            let a = edges.next().unwrap_or(text.len());
            let b = edges.nth(n.saturating_sub(1)).unwrap_or(text.len());
            format!("{}{}", &text[..a], &text[b..])
        }
        Tear::Hollow(part) => {
            let from = at(*part);
            let a = match text[from..].find(['>', '{']) {
                Some(i) => from + i + 1,
                None => return text.to_string(),
            };
            let mut depth = 0;
            let mut b = text.len();
            for (i, c) in text[a..].char_indices() {
                let i = a + i;
                let rest = &text[i..];
                match c {
                    '{' => depth += 1,
                    '<' if !rest.starts_with("</") => depth += 1,
                    '}' | '<' if depth == 0 => {
                        b = i;
                        break;
                    }
                    '}' | '<' => depth -= 1,
                    '/' if rest.starts_with("/>") => depth -= 1,
                    _ => {}
                }
            }
            format!("{}{}", &text[..a], &text[b..])
        }
        Tear::Misplaced(part, other, n) => {
            let (a, c) = (at(*part), at(*other));
            let (b, d) = (boundary(a + n), boundary(c + n));
            format!("{}{}{}", &text[..a], &text[c..d], &text[b..])
        }
        Tear::Mix(part) => {
            let a = at(*part);
            let mut b = a.min(other.len());
            while !other.is_char_boundary(b) {
                b -= 1;
            }
            format!("{}{}", &text[..a], &other[b..])
        }
    }
}

/// The other version of sources, partially overwritten by the current one.
fn other(source: &Source) -> Source {
    let mut other = source.clone();
    other.css.rules.reverse();
    other.tpl.body.kids.reverse();
    other
}

fn torn(source: &Source, a: &Tear, b: &Tear, last: &Frame, i: usize, stats: &mut Stats) -> Result<(), Fail> {
    let other = other(source);
    let html = tear(&source.html(), &other.html(), a);
    let css = tear(&source.css(), &other.css(), b);
    let view = guarded("torn", || Ok(create(&html, &css, source.font, source.tr))).map_err(|mut fail| {
        fail.step = i;
        fail.message = format!("creation from torn sources: {}", fail.message);
        fail
    })?;
    for t in [a, b] {
        let name = match t {
            Tear::Cut(_) => "source cut",
            Tear::Drop(..) => "source with lost range",
            Tear::Fill(..) => "source with overwritten range",
            Tear::Mix(_) => "source mixed with other version",
            Tear::Twice(..) => "source with duplicated range",
            Tear::Hollow(_) => "source with lost content",
            Tear::Block(..) => "source with lost block",
            Tear::Misplaced(..) => "source with misplaced write",
            Tear::None => continue,
        };
        *stats.faults.entry(name.to_string()).or_default() += 1;
    }
    let view = match view {
        Err(_) => {
            stats.probe("torn sources rejected");
            return Ok(());
        }
        Ok(view) => view,
    };
    stats.probe("torn sources accepted");
    let mut sim = Sim { view, snap: Snap::default(), frames: 0 };
    guarded("torn", || {
        for value in [&last.value, &json!({}), &last.value] {
            for events in [vec![], vec![InputEvent::MouseMove([5.0, 5.0]), InputEvent::MouseButtonDown(MouseButtons::Left)]] {
                if let Err(error) = sim.update(16_000, last.vp, events, value) {
                    return fail("torn", i, format!("update of view from torn sources: {error}"));
                }
            }
        }
        Ok(())
    })
    .map_err(|mut fail| {
        fail.step = i;
        fail
    })
}

fn reload(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let source = &sc.views[0];
    // the same history without reloads
    let quiet = solo(sc, 0, &mut Stats::default())?;
    let mut sim = start(source, 0)?;
    let mut actual: Record = vec![];
    let mut first: Vec<&Frame> = vec![];
    let mut last: Option<&Frame> = None;
    let mut ready = true;
    for (i, s) in sc.steps.iter().enumerate() {
        match s {
            Step::F(frame) => {
                let out = step(&mut sim, frame, i, stats)?;
                actual.push((i, record(&sim, Ok(out))));
                if ready && first.len() < 3 {
                    first.push(frame);
                }
                last = Some(frame);
            }
            Step::Torn(_, a, b) => {
                if let Some(last) = last {
                    torn(source, a, b, last, i, stats)?;
                    stats.checks += 1;
                }
            }
            Step::Restart(_) => {
                ready = false;
                sim = start(source, i)?;
            }
            Step::Check => {}
        }
    }
    if let Some((i, diff)) = differ(&actual, &quiet) {
        return fail("affected", i, format!("running view is affected by failed reloads: {diff}"));
    }
    // the last reload
    let end = sc.steps.len();
    let mut fresh = start(source, end)?;
    for (n, frame) in first.iter().enumerate() {
        let mut stats = Stats::default();
        let out = step(&mut fresh, frame, end, &mut stats)?;
        let now = vec![(end, record(&fresh, Ok(out)))];
        let then = vec![actual[n].clone()];
        if let Some((_, diff)) = differ(&now, &then) {
            return fail("restart", end, format!("reload is not as the first start: {diff}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

struct Player {
    view: usize,
    sim: Sim,
    out: Record,
}

impl Player {
    fn play(&mut self, sc: &Scenario, i: usize) -> Result<(), Fail> {
        let source = &sc.views[self.view];
        match &sc.steps[i] {
            Step::F(frame) if frame.view == self.view => {
                let result = self.sim.frame(frame);
                let record = record(&self.sim, result);
                self.out.push((i, record));
            }
            Step::Restart(view) if *view == self.view => self.sim = start(source, i)?,
            Step::Torn(view, a, b) if *view == self.view => {
                // attempts to create other views
                let other = other(source);
                let html = tear(&source.html(), &other.html(), a);
                let css = tear(&source.css(), &other.css(), b);
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    if let Ok(mut view) = create(&html, &css, 2.0, source.tr + 1) {
                        let input = bumaga::Input::new();
                        let _ = view.update(input, json!({"s0": "other", "f0": true}));
                    }
                }));
                PANIC.with(|cell| cell.borrow_mut().take());
            }
            _ => {}
        }
        Ok(())
    }
}

/// Digests of everything displayed by frames of a view.
struct Digests {
    looks: Vec<(Look, u64)>,
}

impl Digests {
    fn new() -> Self {
        Self { looks: vec![] }
    }

    fn add(&mut self, record: &Shown) -> u64 {
        let mut fnv = Fnv::new();
        let (snap, messages, captured, cursor) = match record {
            Ok(shown) => shown,
            Err(error) => {
                fnv.add(error.as_bytes());
                return fnv.0;
            }
        };
        self.looks.truncate(snap.0.len());
        for (i, e) in snap.0.iter().enumerate() {
            // most of elements look the same as in the previous frame
            let known = match self.looks.get(i) {
                Some((look, known)) if look == &e.look => Some(*known),
                _ => None,
            };
            let look = known.unwrap_or_else(|| {
                let mut fnv = Fnv::new();
                fnv.add(canonical(&e.look).as_bytes());
                let look = (e.look.clone(), fnv.0);
                match self.looks.get_mut(i) {
                    Some(known) => *known = look,
                    None => self.looks.push(look),
                }
                fnv.0
            });
            fnv.add(&look.to_le_bytes());
            fnv.add(canonical(&unlike(e)).as_bytes());
        }
        let _ = write!(fnv, "{}{captured}{cursor}", json!(messages));
        fnv.0
    }
}

/// What is displayed of the element except of its look.
fn unlike(e: &El) -> impl std::fmt::Debug + '_ {
    (
        (&e.k, &e.tag, &e.text, &e.attrs, e.parent),
        (e.pos, e.size, e.content, e.total_opacity, e.scrolling, e.clipping, e.layout),
    )
}

/// Negative zero is equal to zero.
fn canonical(value: &impl std::fmt::Debug) -> String {
    let mut text = format!("{value:?}");
    for end in [",", ")", "]", " "] {
        text = text.replace(&format!("-0.0{end}"), &format!("0.0{end}"));
    }
    text
}

/// Lines of everything displayed by the frame.
fn lines(record: &Shown) -> Vec<String> {
    match record {
        Err(error) => vec![error.clone()],
        Ok((snap, messages, captured, cursor)) => {
            let mut out = vec![format!("messages {}, captured {captured}, cursor {cursor}", json!(messages))];
            for (i, e) in snap.0.iter().enumerate() {
                out.push(format!("{} {} {}", snap.path(i), canonical(&unlike(e)), canonical(&e.look)));
            }
            out
        }
    }
}

/// Records of all views updated in turns.
fn together(sc: &Scenario) -> Result<Vec<Record>, Fail> {
    if sc.threads {
        let sc = Arc::new(sc.clone());
        let turn = Arc::new((Mutex::new(0usize), Condvar::new()));
        let n = sc.views.len();
        let handles: Vec<_> = (0..n)
            .map(|view| {
                let sc = sc.clone();
                let turn = turn.clone();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        set_hash_seed(sc.hash.wrapping_mul(31).wrapping_add(view as u64));
                        let mut player: Option<Player> = None;
                        let mut result: Result<(), Fail> = Ok(());
                        let (lock, condition) = &*turn;
                        // every step is a turn of each thread
                        for own in 0..sc.steps.len() + 1 {
                            let mut now = lock.lock().unwrap();
                            while *now != own * n + view {
                                now = condition.wait(now).unwrap();
                            }
                            if result.is_ok() {
                                result = guarded("panic", || {
                                    if own == 0 {
                                        player = Some(Player {
                                            view,
                                            sim: start(&sc.views[view], 0)?,
                                            out: vec![],
                                        });
                                        return Ok(());
                                    }
                                    player.as_mut().unwrap().play(&sc, own - 1)
                                });
                            }
                            *now += 1;
                            condition.notify_all();
                        }
                        result.map(|_| player.unwrap().out)
                    })
                    .expect("thread")
            })
            .collect();
        let mut out = vec![];
        for handle in handles {
            out.push(handle.join().expect("harness: player"));
        }
        out.into_iter().collect()
    } else {
        let mut players = vec![];
        for view in 0..sc.views.len() {
            players.push(Player { view, sim: start(&sc.views[view], 0)?, out: vec![] });
        }
        for i in 0..sc.steps.len() {
            for player in &mut players {
                player.play(sc, i)?;
            }
        }
        Ok(players.into_iter().map(|player| player.out).collect())
    }
}

/// Each of views is executed by a process where there are no others, it must not differ.
fn isolation(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    type Digested = (Result<Vec<(usize, u64)>, Fail>, Stats);
    let digests = |record: &Record| {
        let mut digests = Digests::new();
        record.iter().map(|(i, shown)| (*i, digests.add(shown))).collect::<Vec<_>>()
    };
    let play_alone = |view: usize| {
        let mut stats = Stats::default();
        set_hash_seed(sc.hash.wrapping_add(view as u64));
        (guarded("panic", || solo(sc, view, &mut stats)), stats)
    };
    let mut alone: Vec<Vec<(usize, u64)>> = vec![];
    for view in 0..sc.views.len() {
        let (result, own): Digested = pristine(LIMIT, || {
            let (record, stats) = play_alone(view);
            (record.map(|record| digests(&record)), stats)
        })?;
        stats.merge(own);
        alone.push(result?);
    }
    stats.probe(if sc.threads { "views of threads" } else { "views of the same thread" });
    // this process has no views, neither do those which repeat it
    let all: Result<Vec<Vec<(usize, u64)>>, Fail> = pristine(LIMIT, || {
        guarded("panic", || together(sc)).map(|all| all.iter().map(digests).collect())
    })?;
    for (view, (alone, found)) in alone.iter().zip(&all?).enumerate() {
        stats.checks += alone.len() as u64;
        let at = match alone.iter().zip(found).position(|(a, b)| a != b) {
            Some(at) => at,
            None if alone.len() == found.len() => continue,
            None => return fail("isolation", usize::MAX, format!("view {view} has another number of frames")),
        };
        let own: Result<Vec<String>, Fail> = pristine(LIMIT, || {
            play_alone(view).0.map(|record| record.get(at).map(|(_, shown)| lines(shown)).unwrap_or_default())
        })?;
        let own = own?;
        let now: Result<Vec<String>, Fail> =
            pristine(LIMIT, || guarded("panic", || together(sc)).map(|all| lines(&all[view][at].1)))?;
        let now = now?;
        let (a, b) = own
            .iter()
            .zip(&now)
            .find(|(a, b)| a != b)
            .map(|(a, b)| (a.clone(), b.clone()))
            .unwrap_or((format!("{} elements", own.len()), format!("{} elements", now.len())));
        // text around of the difference
        let same = a.chars().zip(b.chars()).take_while(|(a, b)| a == b).count();
        let cut = |text: &str| text.chars().skip(same.saturating_sub(60)).take(160).collect::<String>();
        let head: String = a.chars().take(120).collect();
        return fail(
            "isolation",
            found[at].0,
            format!("view {view} is affected by others: {head}: {:?} instead of {:?}", cut(&b), cut(&a)),
        );
    }
    Ok(())
}

impl Stats {
    pub fn merge(&mut self, other: Stats) {
        self.frames += other.frames;
        self.events += other.events;
        self.messages += other.messages;
        self.checks += other.checks;
        self.micros = self.micros.saturating_add(other.micros);
        self.changes += other.changes;
        for (k, v) in other.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in other.probes {
            *self.probes.entry(k).or_default() += v;
        }
        self.states.extend(other.states);
        self.trace ^= other.trace.rotate_left(1);
        if other.abandoned.is_some() {
            self.abandoned = other.abandoned;
        }
    }
}

// ---------------------------------------------------------------- C20

fn geometry(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let mut sim = start(&sc.views[0], 0)?;
    for (i, frame) in frames(sc) {
        step(&mut sim, frame, i, stats)?;
        // rectangle of the nearest overflowing ancestor
        let mut clips: Vec<Option<[f32; 4]>> = vec![];
        for (n, e) in sim.snap.0.iter().enumerate() {
            let at = || sim.snap.path(n);
            stats.checks += 1;
            let [x, y, w, h, cw, ch] = e.layout;
            let (origin, opacity, clip) = match e.parent {
                None => ([0.0, 0.0], 1.0, None),
                Some(p) => {
                    let parent = &sim.snap.0[p];
                    let mut origin = parent.pos;
                    let mut clip = clips[p];
                    if let Some([sx, sy, _, _]) = parent.scrolling {
                        origin[0] -= sx;
                        origin[1] -= sy;
                        clip = Some([
                            parent.pos[0],
                            parent.pos[1],
                            parent.layout[2],
                            parent.layout[3],
                        ]);
                    }
                    (origin, parent.total_opacity, clip)
                }
            };
            clips.push(clip);
            if !near(e.pos[0], origin[0] + x) || !near(e.pos[1], origin[1] + y) {
                return fail(
                    "position",
                    i,
                    format!("{} is at {:?}, expected {:?}", at(), e.pos, [origin[0] + x, origin[1] + y]),
                );
            }
            if e.size != [w, h] || e.content != [cw, ch] {
                return fail("size", i, format!("{} size is {:?}, layout {:?}", at(), e.size, [w, h]));
            }
            if !near(e.total_opacity, opacity * e.look.opacity) {
                return fail(
                    "opacity",
                    i,
                    format!("{} opacity is {}, expected {}", at(), e.total_opacity, opacity * e.look.opacity),
                );
            }
            let same = match (e.clipping, clip) {
                (None, None) => true,
                (Some(a), Some(b)) => a.iter().zip(&b).all(|(a, b)| near(*a, *b)),
                _ => false,
            };
            if !same {
                return fail("clip", i, format!("{} is clipped by {:?}, expected {clip:?}", at(), e.clipping));
            }
            let overflow = [(cw - w).max(0.0), (ch - h).max(0.0)];
            match e.scrolling {
                None => {
                    if overflow != [0.0, 0.0] {
                        return fail("scroll", i, format!("{} overflows by {overflow:?}, not scrolling", at()));
                    }
                }
                Some([sx, sy, max_x, max_y]) => {
                    stats.probe("scrolling element");
                    if e.text.is_none() && !e.kids.is_empty() {
                        stats.probe("clipped children");
                    }
                    if !near(max_x, overflow[0]) || !near(max_y, overflow[1]) || overflow == [0.0, 0.0] {
                        return fail(
                            "scroll",
                            i,
                            format!("{} scrolls by {:?}, overflows by {overflow:?}", at(), [max_x, max_y]),
                        );
                    }
                    if !(sx >= 0.0 && sx <= max_x && sy >= 0.0 && sy <= max_y) {
                        return fail(
                            "scroll",
                            i,
                            format!("{} is scrolled by {:?} of {:?}", at(), [sx, sy], [max_x, max_y]),
                        );
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn measure(sc: &Scenario, stats: &mut Stats) -> Result<(), Fail> {
    let source = &sc.views[0];
    let fonts = SimFonts { scale: source.font };
    let stateless = source.css.rules.iter().all(|rule| {
        rule.sel.iter().all(|complex| {
            complex
                .0
                .iter()
                .all(|(_, compound)| !compound.iter().any(|s| matches!(s, Simple::Pseudo(_))))
        })
    });
    let mut sim = start(source, 0)?;
    let mut last = None;
    for (i, frame) in frames(sc) {
        step(&mut sim, frame, i, stats)?;
        last = Some(frame);
        for (n, e) in sim.snap.0.iter().enumerate() {
            let parent = match e.parent {
                Some(parent) => &sim.snap.0[parent],
                None => continue,
            };
            let text = match &e.text {
                Some(text) => text,
                None => continue,
            };
            stats.checks += 1;
            let mut font = parent.look.font.clone();
            font.align = e.look.font.align.clone();
            if e.look.font != font {
                return fail(
                    "font",
                    i,
                    format!("{} has font {:?}, its element {font:?}", sim.snap.path(n), e.look.font),
                );
            }
            let [_, height] = fonts.measure(text, &font, Some(e.layout[2]));
            // less width is available where boxes shrink to their contents
            let shrunk = || {
                (0..=e.layout[2].ceil() as usize).any(|available| {
                    let [width, height] = fonts.measure(text, &font, Some(available as f32));
                    near(e.layout[2], width) && near(e.layout[3], height)
                })
            };
            if !near(e.layout[3], height) && !shrunk() {
                return fail(
                    "text",
                    i,
                    format!(
                        "{} {text:?} is {:?}, its height is {height} by the font",
                        sim.snap.path(n),
                        e.size
                    ),
                );
            }
            if height > fonts.line(&font) {
                stats.probe("wrapped text");
            }
        }
        if stateless {
            let mut fresh = start(source, i)?;
            if let Err(error) = fresh.update(0, frame.vp, vec![], &frame.value) {
                return fail("update", i, error);
            }
            if let Some(diff) = sim.snap.diff(&fresh.snap) {
                return fail("box", i, format!("not as of the fresh view: {diff}"));
            }
        }
    }
    if let Some(last) = last {
        settled(&mut sim, source, last, sc.steps.len(), "box")?;
    }
    Ok(())
}
