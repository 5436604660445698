//! Generator of scenarios: an application with its views, the data channel, input devices,
//! the frame clock and an operator are simulated as discrete events of one seed.
use crate::rng::{mix, Rng};
use crate::bind::conflict;
use crate::scenario::*;
use crate::sim::KEYS;
use serde_json::{json, Map, Value};
use std::cmp::Reverse;
use std::collections::BinaryHeap;

// ---------------------------------------------------------------- types of the application model

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    Str,
    Num,
    Cls,
    Flag,
    Id,
    Width,
    Hex,
    Obj,
    Nest,
    Mid,
    Leaf,
    ArrStr,
    ArrObj,
    ArrNest,
    ArrArr,
}

const MODEL: [(&str, Ty); 23] = [
    ("s0", Ty::Str),
    ("s1", Ty::Str),
    ("s2", Ty::Str),
    ("n0", Ty::Num),
    ("n1", Ty::Num),
    ("c0", Ty::Cls),
    ("c1", Ty::Cls),
    ("c2", Ty::Cls),
    ("f0", Ty::Flag),
    ("f1", Ty::Flag),
    ("f2", Ty::Flag),
    ("f3", Ty::Flag),
    ("i0", Ty::Id),
    ("i1", Ty::Id),
    ("w0", Ty::Width),
    ("w1", Ty::Width),
    ("h0", Ty::Hex),
    ("o0", Ty::Obj),
    ("o1", Ty::Obj),
    ("o2", Ty::Nest),
    ("l0", Ty::ArrStr),
    ("l1", Ty::ArrObj),
    ("l2", Ty::ArrNest),
];
const MATRIX: (&str, Ty) = ("m0", Ty::ArrArr);

fn model() -> impl Iterator<Item = (&'static str, Ty)> {
    MODEL.iter().copied().chain([MATRIX])
}

fn fields(ty: Ty) -> &'static [(&'static str, Ty)] {
    match ty {
        Ty::Obj => &[
            ("t", Ty::Str),
            ("n", Ty::Num),
            ("f", Ty::Flag),
            ("c", Ty::Cls),
            ("i", Ty::Id),
            ("w", Ty::Width),
        ],
        Ty::Nest => &[("t", Ty::Str), ("l", Ty::ArrStr), ("f", Ty::Flag), ("p", Ty::Mid)],
        Ty::Mid => &[("q", Ty::Leaf), ("f", Ty::Flag)],
        Ty::Leaf => &[("t", Ty::Str), ("c", Ty::Cls), ("n", Ty::Num), ("l", Ty::ArrStr)],
        _ => &[],
    }
}

/// Paths to parts of an object.
fn collect(path: &[String], ty: Ty, want: &[Ty], out: &mut Vec<(Vec<String>, Ty)>) {
    for (field, ty) in fields(ty) {
        let path: Vec<String> = path.iter().cloned().chain([field.to_string()]).collect();
        if want.contains(ty) {
            out.push((path.clone(), *ty));
        }
        collect(&path, *ty, want, out);
    }
}

fn item(ty: Ty) -> Option<Ty> {
    match ty {
        Ty::ArrStr => Some(Ty::Str),
        Ty::ArrObj => Some(Ty::Obj),
        Ty::ArrNest => Some(Ty::Nest),
        Ty::ArrArr => Some(Ty::ArrStr),
        _ => None,
    }
}

const WORDS: [&str; 18] = [
    "alpha", "be", "cargo dock", "d", "epsilon phi", "Ff", "gamma-ray", "h7", "io", "\u{416}uk",
    "alpha", "be", "d", "null", "false", "0", "illicit Mow", "e\u{301}\u{1f680}",
];
/// Texts which mean something in templates.
const MARKUP: [&str; 6] = ["{s0}", "<b>a</b>", "\"q\"", " x  y ", "{", "&amp;"];
const CLASSES: [&str; 4] = ["a", "b", "c", "d"];
/// Tags without content, and tags whose names start with them.
const VOIDS: [&str; 5] = ["br", "hr", "wbr", "area", "embed"];
const CUSTOM: [&str; 6] = ["column", "brand", "hr-line", "tracker", "links", "h1"];
/// What separates words in a list.
const SEPARATORS: [&str; 8] = [" ", " ", " ", " ", "  ", "\n", "\t", "\n    "];
const IDS: [&str; 4] = ["ida", "idb", "idc", "idd"];

#[derive(Clone, Copy)]
pub struct Data {
    /// null or missing parts
    pub nulls: f64,
    pub empty: f64,
    pub max_items: usize,
}

fn fresh(rng: &mut Rng, ty: Ty, d: &Data) -> Value {
    if rng.p(d.nulls) {
        return Value::Null;
    }
    match ty {
        Ty::Str => {
            if rng.p(d.empty) {
                json!("")
            } else if rng.p(0.05) {
                json!(rng.word(&MARKUP))
            } else {
                json!(rng.word(&WORDS))
            }
        }
        Ty::Num => match rng.below(14) {
            0 | 1 => json!(0),
            2 => json!(1.5),
            3 => json!(-7),
            4 => json!(0.1),
            5 => json!(-0.25),
            6 => match rng.below(8) {
                5 => json!(4294967296u64 + rng.below(100000) as u64),
                6 => json!(1e12 + 0.5),
                7 => json!(86399.9999),
                0 => json!(u64::MAX),
                1 => json!(i64::MIN),
                2 => json!(1e21),
                3 => json!(1e-7),
                _ => json!(16777217),
            },
            _ => json!(rng.below(2000)),
        },
        Ty::Cls => match rng.below(6) {
            0 => json!(""),
            1 => json!(format!("{}{}{}", rng.word(&CLASSES), rng.word(&SEPARATORS), rng.word(&CLASSES))),
            _ => json!(rng.word(&CLASSES)),
        },
        Ty::Flag => match rng.below(24) {
            0 => json!(0),
            1 => json!(1),
            2 => json!(""),
            3 => json!("x"),
            4 => json!([]),
            5 => json!([1]),
            6 => json!({}),
            7 => json!(0.5),
            8 => json!(-1),
            9 => match rng.below(8) {
                0 => json!(0.0),
                1 => json!(-0.0),
                2 => json!("0"),
                3 => json!("false"),
                4 => json!(" "),
                5 => json!([null]),
                6 => json!([0]),
                _ => json!(1e-300),
            },
            n => json!(n % 2 == 0),
        },
        Ty::Id => match rng.below(6) {
            0 => json!(""),
            _ => json!(rng.word(&IDS)),
        },
        Ty::Width => json!(rng.range(1, 12) * 10),
        Ty::Hex => {
            json!(rng.word(&["#ff0000", "#00ff00", "#0000ff", "#102030"]))
        }
        Ty::Obj | Ty::Nest | Ty::Mid | Ty::Leaf => {
            let mut object = Map::new();
            for (name, ty) in fields(ty) {
                if !rng.p(d.nulls) {
                    object.insert(name.to_string(), fresh(rng, *ty, d));
                }
            }
            Value::Object(object)
        }
        Ty::ArrStr | Ty::ArrObj | Ty::ArrNest | Ty::ArrArr => {
            let n = match d.max_items > 3 && rng.p(0.03) {
                true => rng.range(8, 14),
                false => rng.below(d.max_items + 1),
            };
            Value::Array((0..n).map(|_| fresh(rng, item(ty).unwrap(), d)).collect())
        }
    }
}

pub fn initial(rng: &mut Rng, d: &Data) -> Value {
    let mut object = Map::new();
    for (name, ty) in model() {
        if !rng.p(d.nulls) {
            object.insert(name.to_string(), fresh(rng, ty, d));
        }
    }
    Value::Object(object)
}

/// One step of the application.
fn mutate(rng: &mut Rng, value: &mut Value, ty: Ty, d: &Data) {
    match (ty, &mut *value) {
        (Ty::Flag, Value::Bool(v)) if rng.p(0.7) => *v = !*v,
        (Ty::Obj | Ty::Nest | Ty::Mid | Ty::Leaf, Value::Object(object)) if rng.p(0.85) => {
            let (name, ty) = *rng.pick(fields(ty));
            if rng.p(d.nulls) {
                object.remove(name);
            } else {
                let mut field = object.remove(name).unwrap_or(Value::Null);
                mutate(rng, &mut field, ty, d);
                object.insert(name.to_string(), field);
            }
        }
        (Ty::ArrStr | Ty::ArrObj | Ty::ArrNest | Ty::ArrArr, Value::Array(items))
            if rng.p(0.9) =>
        {
            let item = item(ty).unwrap();
            match rng.below(8) {
                0 | 1 => items.push(fresh(rng, item, d)),
                2 => {
                    items.pop();
                }
                3 if !items.is_empty() => {
                    let n = rng.below(items.len());
                    items.remove(n);
                }
                4 => {
                    let n = rng.below(items.len() + 1);
                    items.insert(n, fresh(rng, item, d));
                }
                5 => items.reverse(),
                6 if !items.is_empty() => items.rotate_left(1),
                _ if !items.is_empty() => {
                    let n = rng.below(items.len());
                    mutate(rng, &mut items[n], item, d);
                }
                _ => items.push(fresh(rng, item, d)),
            }
            if items.len() > d.max_items + 1 && rng.p(0.8) {
                items.truncate(d.max_items);
            }
        }
        (ty, value) => *value = fresh(rng, ty, d),
    }
}

fn evolve(rng: &mut Rng, app: &mut Value, used: &[String], d: &Data) {
    let object = app.as_object_mut().unwrap();
    // most changes must be visible
    let all: Vec<(&str, Ty)> = model().collect();
    let mut candidates: Vec<(&str, Ty)> =
        all.iter().copied().filter(|(name, _)| used.iter().any(|u| u == name)).collect();
    if candidates.is_empty() || rng.p(0.1) {
        candidates = all;
    }
    let (name, ty) = *rng.pick(&candidates);
    if rng.p(d.nulls * 0.5) {
        object.remove(name);
        return;
    }
    let mut field = object.remove(name).unwrap_or(Value::Null);
    mutate(rng, &mut field, ty, d);
    object.insert(name.to_string(), field);
}

/// Damage by the data channel: types are not those expected by the template.
fn corrupt(rng: &mut Rng, value: &mut Value, depth: usize) {
    let deeper = match value {
        Value::Object(o) => !o.is_empty(),
        Value::Array(a) => !a.is_empty(),
        _ => false,
    };
    if deeper && (depth == 0 && rng.p(0.85) || depth > 0 && rng.p(0.5)) {
        match value {
            Value::Object(object) => {
                let n = rng.below(object.len());
                let key = object.keys().nth(n).unwrap().clone();
                corrupt(rng, object.get_mut(&key).unwrap(), depth + 1);
            }
            Value::Array(items) => {
                let n = rng.below(items.len());
                corrupt(rng, &mut items[n], depth + 1);
            }
            _ => {}
        }
        return;
    }
    *value = match rng.below(10) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(17),
        3 => json!("torn"),
        4 => json!([]),
        5 => json!([1, "x", null, [2], {"t": 3}]),
        6 => json!({}),
        7 => json!({"t": {"t": 1}, "0": "zero", "f": [1]}),
        8 => json!([[["deep"]]]),
        _ => json!(-0.0),
    };
}

// ---------------------------------------------------------------- profiles

#[derive(Clone, Copy, PartialEq)]
pub enum Args {
    None,
    Event,
    Full,
}

/// What a property needs to be decided.
#[derive(Clone)]
pub struct Profile {
    pub depth: usize,
    pub nodes: usize,
    /// the most children of body
    pub wide: usize,
    pub text: f64,
    pub cond: f64,
    pub rep: f64,
    pub alias: f64,
    pub comps: usize,
    pub class: f64,
    pub bound_class: f64,
    pub ids: f64,
    pub inline: f64,
    pub tagattr: f64,
    pub data_attr: f64,
    pub img: f64,
    pub drag: f64,
    pub drop: f64,
    pub input: f64,
    pub listen: f64,
    pub events: &'static [&'static str],
    pub args: Args,
    /// messages with keys from the data
    pub keys: f64,
    // styles
    pub rules: usize,
    pub families: &'static [&'static str],
    pub pseudo: f64,
    pub combinators: f64,
    pub vars: f64,
    pub vw: f64,
    pub sized: bool,
    pub extreme: bool,
    pub grid: bool,
    /// chance of a list of values where one is expected
    pub lists: f64,
    pub time: Time,
    // histories
    pub frames: (usize, usize),
    pub data: Data,
    pub faults: &'static [&'static str],
    pub gestures: &'static [&'static str],
    /// pauses between gestures, app changes, resizes in ms, zero if there are none
    pub gesture_every: u64,
    pub app_every: u64,
    pub resize_every: u64,
    pub operator: &'static [&'static str],
}

#[derive(Clone, Copy, PartialEq)]
pub enum Time {
    None,
    Transitions,
    Animations,
    Finite,
    Any,
}

const MOUSE: &[&str] = &["onmouseenter", "onmouseleave", "onmousemove"];
const CLICK: &[&str] = &["onclick", "onmousedown", "onmouseup", "oncontextmenu"];
const FOCUS: &[&str] = &["onfocus", "onblur", "onkeydown", "onkeyup"];
const DRAG: &[&str] = &[
    "ondragstart",
    "ondragenter",
    "ondragover",
    "ondragleave",
    "ondragend",
    "onclick",
];
const ALL_EVENTS: &[&str] = &[
    "onmouseenter",
    "onmouseleave",
    "onmousemove",
    "onclick",
    "onmousedown",
    "onmouseup",
    "oncontextmenu",
    "onfocus",
    "onblur",
    "onkeydown",
    "onkeyup",
    "ondragstart",
    "ondragenter",
    "ondragover",
    "ondragleave",
    "ondragend",
];

const DATA_FAULTS: &[&str] = &[
    "value-lost",
    "value-duplicated",
    "value-delayed",
    "value-corrupted",
    "frame-stall",
    "frame-zero",
];
const INPUT_FAULTS: &[&str] = &[
    "event-lost",
    "event-duplicated",
    "event-delayed",
    "value-lost",
    "value-delayed",
    "frame-stall",
    "frame-zero",
];
const CLOCK_FAULTS: &[&str] = &["frame-stall", "frame-zero", "clock-jump", "value-lost", "value-delayed"];
const ALL_FAULTS: &[&str] = &[
    "value-lost",
    "value-duplicated",
    "value-delayed",
    "value-corrupted",
    "event-lost",
    "event-duplicated",
    "event-delayed",
    "frame-stall",
    "frame-zero",
    "clock-jump",
    "resize-extreme",
];

const GESTURES: &[&str] =
    &["hover", "click", "press-elsewhere", "double", "right", "drag", "type", "wheel", "leave"];

const LOOK: &[&str] = &["size", "box", "flex", "pos", "font", "paint", "misc", "overflow"];

pub fn profile(prop: &str, rng: &mut Rng) -> Profile {
    let mut p = plain(prop, rng);
    match prop {
        "C05" | "C06" | "C15" | "C16" | "C18" | "C19" | "C20" => p.lists = 0.05,
        _ => {}
    }
    match prop {
        // features of the other profiles, now and then
        "C07" | "C08" | "C09" | "C10" | "C11" | "C21" => {
            if p.drag == 0.0 && rng.p(0.25) {
                p.drag = 0.2;
                p.drop = 0.15;
                p.gestures = GESTURES;
            }
            if p.input == 0.0 && rng.p(0.15) {
                p.input = 0.2;
            }
            if rng.p(0.15) {
                p.time = Time::Any;
                p.bound_class = 0.6;
            }
            if rng.p(0.2) {
                p.vw = 0.2;
                p.resize_every = 120;
            }
            if rng.p(0.2) {
                p.combinators = 0.3;
                p.alias = 0.15;
                p.comps = rng.below(2);
                p.tagattr = 0.1;
                p.inline = 0.15;
            }
            if rng.p(0.15) {
                p.frames = (30, 90);
            }
            if !p.events.is_empty() && rng.p(0.35) {
                p.events = ALL_EVENTS;
            }
        }
        "C20" => {
            if rng.p(0.4) {
                p.families = &["size", "pos", "box", "overflow", "overflow", "flex", "paint", "paint", "misc"];
            }
            if rng.p(0.2) {
                p.time = Time::Any;
            }
            if rng.p(0.2) {
                p.vw = 0.2;
                p.combinators = 0.2;
                p.comps = 1;
                p.alias = 0.1;
                p.img = 0.1;
            }
        }
        "C23" => {
            if rng.p(0.2) {
                p.comps = rng.below(3);
                p.alias = 0.15;
                p.vars = 0.2;
            }
        }
        "C22" => {
            if rng.p(0.3) {
                p.combinators = 0.3;
                p.alias = 0.1;
                p.comps = rng.below(2);
                p.tagattr = 0.15;
                p.families = LOOK;
            }
        }
        "C01" | "C02" | "C03" => {
            if rng.p(0.15) {
                p.wide = 12;
                p.nodes = 24;
            }
            if rng.p(0.15) {
                p.rules = 4;
                p.families = LOOK;
                p.listen = 0.3;
                p.events = ALL_EVENTS;
                p.args = Args::Full;
                p.input = 0.1;
                p.drag = 0.1;
                p.gestures = GESTURES;
                p.gesture_every = 40;
            }
            if rng.p(0.1) {
                p.frames = (30, 80);
            }
        }
        _ => {}
    }
    if p.families.contains(&"flex") && rng.p(0.2) {
        // tracks of fractional sizes can hang the layout (see known-findings.txt)
        p.grid = true;
        p.vw = 0.0;
        p.time = Time::None;
        p.extreme = false;
    }
    p
}

fn plain(prop: &str, rng: &mut Rng) -> Profile {
    let base = Profile {
        depth: 3,
        nodes: 10,
        wide: 4,
        text: 0.5,
        cond: 0.15,
        rep: 0.15,
        alias: 0.0,
        comps: 0,
        class: 0.5,
        bound_class: 0.3,
        ids: 0.0,
        inline: 0.0,
        tagattr: 0.0,
        data_attr: 0.0,
        img: 0.0,
        drag: 0.0,
        drop: 0.0,
        input: 0.0,
        listen: 0.0,
        events: &[],
        args: Args::None,
        keys: 0.0,
        rules: 0,
        families: &[],
        pseudo: 0.0,
        combinators: 0.0,
        vars: 0.0,
        vw: 0.0,
        sized: false,
        extreme: false,
        grid: false,
        lists: 0.0,
        time: Time::None,
        frames: (4, 14),
        data: Data { nulls: 0.0, empty: 0.1, max_items: 3 },
        faults: &[],
        gestures: &[],
        gesture_every: 0,
        app_every: 25,
        resize_every: 0,
        operator: &[],
    };
    let nulls = if rng.p(0.5) { 0.0 } else { 0.1 };
    match prop {
        "C01" | "C02" | "C03" => {
            let mut p = Profile {
                depth: 4,
                nodes: 14,
                alias: 0.2,
                comps: rng.below(3),
                ids: 0.1,
                inline: 0.1,
                tagattr: 0.15,
                data_attr: 0.25,
                img: 0.1,
                data: Data { nulls, empty: 0.1, max_items: 4 },
                faults: DATA_FAULTS,
                app_every: 15,
                frames: (5, 20),
                ..base
            };
            match prop {
                "C01" => p.text = 0.7,
                "C02" => {
                    p.cond = 0.45;
                    p.text = 0.3;
                }
                _ => {
                    p.rep = 0.4;
                    p.cond = 0.2;
                }
            }
            p
        }
        "C04" => Profile {
            depth: 4,
            nodes: 12,
            alias: 0.2,
            comps: rng.below(3),
            tagattr: 0.15,
            data_attr: 0.2,
            inline: 0.15,
            img: 0.1,
            cond: 0.25,
            rep: 0.3,
            listen: 0.3,
            events: &["onmouseenter", "onclick", "onmouseleave", "oncontextmenu"],
            args: Args::Full,
            rules: 4,
            families: &["size", "paint", "font"],
            sized: true,
            data: Data { nulls: nulls * 0.5, empty: 0.1, max_items: 4 },
            faults: &["value-corrupted", "value-lost", "value-delayed"],
            gestures: &["hover", "frame-click", "frame-right"],
            gesture_every: 60,
            app_every: 20,
            frames: (6, 18),
            ..base
        },
        "C05" => Profile {
            depth: 4,
            nodes: 12,
            alias: 0.15,
            comps: rng.below(2),
            bound_class: 0.5,
            tagattr: 0.15,
            data_attr: 0.2,
            inline: 0.15,
            img: 0.1,
            ids: 0.15,
            drag: 0.1,
            input: 0.15,
            listen: 0.1,
            events: ALL_EVENTS,
            args: Args::Event,
            rules: 8,
            families: LOOK,
            pseudo: 0.3,
            combinators: 0.3,
            vars: 0.2,
            vw: 0.2,
            time: if rng.p(0.5) { Time::Finite } else { Time::None },
            data: Data { nulls, empty: 0.1, max_items: 4 },
            faults: ALL_FAULTS,
            gestures: GESTURES,
            gesture_every: 50,
            app_every: 20,
            resize_every: 120,
            operator: &["check", "restart"],
            frames: (6, 24),
            ..base
        },
        "C06" => Profile {
            depth: 4,
            nodes: 12,
            cond: 0.2,
            rep: 0.15,
            bound_class: 0.5,
            ids: 0.25,
            inline: 0.15,
            tagattr: 0.2,
            data_attr: 0.3,
            img: 0.05,
            input: 0.15,
            listen: 1.0,
            events: MOUSE,
            args: Args::Event,
            rules: 10,
            families: LOOK,
            pseudo: 0.35,
            combinators: 0.35,
            vars: 0.3,
            vw: 0.1,
            faults: INPUT_FAULTS,
            gestures: GESTURES,
            gesture_every: 40,
            app_every: 20,
            resize_every: 300,
            frames: (5, 20),
            ..base
        },
        "C07" | "C08" | "C09" | "C10" | "C11" | "C21" => {
            let mut p = Profile {
                depth: 4,
                nodes: 10,
                text: 0.3,
                cond: 0.2,
                rep: 0.15,
                listen: 0.7,
                args: Args::Event,
                rules: 5,
                families: &["size", "pos", "misc", "overflow", "box"],
                pseudo: 0.15,
                sized: true,
                faults: INPUT_FAULTS,
                gestures: GESTURES,
                gesture_every: 25,
                app_every: 60,
                frames: (8, 40),
                ..base
            };
            match prop {
                "C07" => {
                    p.events = MOUSE;
                    p.gestures = &["hover", "hover", "leave", "click", "wheel", "press-elsewhere"];
                    p.app_every = 30;
                }
                "C08" => {
                    p.events = CLICK;
                    p.drag = 0.04;
                    p.gestures =
                        &["click", "press-elsewhere", "double", "right", "hover", "mixed-buttons"];
                }
                "C09" => {
                    p.events = FOCUS;
                    p.input = 0.45;
                    p.cond = 0.3;
                    p.app_every = 40;
                    p.gestures = &["click", "type", "type", "right", "press-elsewhere", "hover"];
                }
                "C10" => {
                    p.events = DRAG;
                    p.drag = 0.35;
                    p.drop = 0.3;
                    p.gestures = &["drag", "drag", "click", "press-elsewhere", "right", "hover", "mixed-buttons"];
                }
                "C11" => {
                    p.events = ALL_EVENTS;
                    p.args = Args::Full;
                    p.keys = if rng.p(0.3) { 0.2 } else { 0.0 };
                    p.alias = 0.25;
                    p.comps = rng.below(3);
                    p.rep = 0.3;
                    p.input = 0.2;
                    p.drag = 0.15;
                    p.drop = 0.1;
                    p.app_every = 20;
                    p.data = Data { nulls, empty: 0.1, max_items: 4 };
                }
                _ => {
                    p.events = ALL_EVENTS;
                    p.input = 0.15;
                    p.drag = 0.15;
                    p.drop = 0.15;
                    p.families = &["size", "pos", "misc", "misc", "overflow"];
                }
            }
            p
        }
        "C12" => Profile {
            depth: 4,
            nodes: 10,
            text: 0.3,
            listen: 0.6,
            events: ALL_EVENTS,
            args: Args::Event,
            rules: 4,
            families: &["size", "pos", "misc", "box"],
            sized: true,
            input: 0.2,
            drag: 0.2,
            drop: 0.2,
            faults: &["event-lost", "event-duplicated", "event-delayed", "frame-stall"],
            gestures: &["hover", "click", "press-elsewhere", "double", "right", "drag", "type", "wheel", "leave", "mixed-buttons"],
            gesture_every: 25,
            app_every: 0,
            frames: (8, 30),
            ..base
        },
        "C13" | "C14" => Profile {
            depth: 3,
            nodes: 6,
            text: 0.2,
            cond: 0.1,
            rep: 0.1,
            bound_class: 0.8,
            class: 0.9,
            tagattr: 0.2,
            rules: 0,
            listen: 1.0,
            events: MOUSE,
            args: Args::Event,
            time: if prop == "C13" { Time::Transitions } else { Time::Animations },
            faults: CLOCK_FAULTS,
            gestures: &["hover", "click", "leave"],
            gesture_every: 400,
            app_every: if rng.p(0.5) { 300 } else { 900 },
            pseudo: 0.25,
            frames: (10, 60),
            ..base
        },
        "C15" => Profile {
            depth: 5,
            nodes: 16,
            alias: 0.2,
            comps: rng.below(3),
            cond: 0.25,
            rep: 0.25,
            bound_class: 0.4,
            tagattr: 0.15,
            data_attr: 0.2,
            inline: 0.15,
            img: 0.1,
            ids: 0.15,
            drag: 0.15,
            drop: 0.1,
            input: 0.2,
            listen: 0.4,
            events: ALL_EVENTS,
            args: Args::Full,
            rules: 10,
            families: LOOK,
            pseudo: 0.3,
            combinators: 0.3,
            vars: 0.3,
            vw: 0.3,
            extreme: true,
            time: Time::Any,
            data: Data { nulls, empty: 0.2, max_items: 5 },
            faults: ALL_FAULTS,
            gestures: &["hover", "click", "press-elsewhere", "right", "drag", "type", "wheel", "leave", "mixed-buttons", "wild"],
            gesture_every: 30,
            app_every: 20,
            resize_every: 150,
            frames: (6, 30),
            ..base
        },
        "C16" | "C19" => Profile {
            depth: 4,
            nodes: 10,
            alias: 0.15,
            comps: rng.below(2),
            cond: 0.2,
            rep: 0.2,
            bound_class: 0.4,
            tagattr: 0.15,
            data_attr: 0.3,
            inline: 0.15,
            img: 0.1,
            ids: 0.2,
            drag: 0.1,
            input: 0.15,
            listen: 0.3,
            events: ALL_EVENTS,
            args: Args::Full,
            rules: 10,
            families: LOOK,
            pseudo: 0.3,
            combinators: 0.3,
            vars: 0.3,
            vw: 0.2,
            time: Time::Any,
            data: Data { nulls, empty: 0.1, max_items: 4 },
            faults: ALL_FAULTS,
            gestures: GESTURES,
            gesture_every: 40,
            app_every: 20,
            resize_every: 200,
            operator: if prop == "C19" { &["torn", "restart"] } else { &[] },
            frames: (5, 16),
            ..base
        },
        "C17" => Profile {
            depth: 3,
            nodes: 12,
            ids: 0.7,
            cond: 0.25,
            rep: 0.25,
            alias: 0.15,
            comps: rng.below(4),
            data: Data { nulls: nulls * 0.5, empty: 0.1, max_items: 4 },
            faults: DATA_FAULTS,
            app_every: 12,
            frames: (6, 24),
            ..base
        },
        "C18" => Profile {
            depth: 4,
            nodes: 10,
            alias: 0.15,
            comps: rng.below(3),
            cond: 0.2,
            rep: 0.2,
            bound_class: 0.4,
            tagattr: 0.15,
            data_attr: 0.3,
            inline: 0.15,
            img: 0.1,
            ids: 0.15,
            drag: 0.1,
            input: 0.1,
            listen: 0.3,
            events: ALL_EVENTS,
            args: Args::Full,
            rules: 8,
            families: LOOK,
            pseudo: 0.3,
            combinators: 0.3,
            vars: 0.3,
            vw: 0.2,
            time: Time::Any,
            data: Data { nulls, empty: 0.1, max_items: 4 },
            faults: &["value-lost", "value-delayed", "event-lost", "frame-stall"],
            gestures: GESTURES,
            gesture_every: 60,
            app_every: 30,
            operator: &["torn", "torn", "torn", "restart"],
            frames: (4, 12),
            ..base
        },
        "C20" => Profile {
            depth: 5,
            nodes: 14,
            text: 0.4,
            cond: 0.2,
            rep: 0.15,
            bound_class: 0.5,
            tagattr: 0.1,
            inline: 0.1,
            rules: 8,
            families: &["size", "pos", "box", "overflow", "overflow", "flex", "paint"],
            pseudo: 0.2,
            faults: &["value-lost", "value-delayed", "event-lost", "frame-stall", "value-corrupted"],
            gestures: &["hover", "click", "wheel", "leave"],
            gesture_every: 50,
            app_every: 20,
            resize_every: 200,
            frames: (5, 20),
            ..base
        },
        "C22" => Profile {
            depth: 4,
            nodes: 10,
            text: 0.3,
            cond: 0.1,
            rep: 0.1,
            bound_class: 0.3,
            inline: 0.2,
            rules: 8,
            families: &["size", "box", "flex", "pos", "font", "paint"],
            vw: 0.8,
            vars: 0.3,
            faults: &["value-lost", "frame-stall", "resize-extreme", "resize-one", "resize-burst"],
            app_every: 80,
            resize_every: 30,
            frames: (5, 20),
            ..base
        },
        "C23" => Profile {
            depth: 4,
            nodes: 10,
            text: 1.0,
            cond: 0.25,
            rep: 0.2,
            bound_class: 0.5,
            tagattr: 0.2,
            inline: 0.1,
            rules: 7,
            families: &["font", "font", "font", "size"],
            pseudo: 0.2,
            combinators: 0.3,
            faults: DATA_FAULTS,
            gestures: &["hover", "click", "leave"],
            gesture_every: 80,
            app_every: 15,
            frames: (5, 20),
            ..base
        },
        prop => panic!("harness: no profile of {prop}"),
    }
}

// ---------------------------------------------------------------- templates

#[derive(Clone)]
struct Scope {
    vars: Vec<(String, Ty)>,
}

struct TplGen<'a> {
    rng: &'a mut Rng,
    p: &'a Profile,
    counter: usize,
    left: usize,
    /// types of component parameters
    params: Vec<(Option<(String, Ty)>, bool)>,
    /// static ids can't be repeated
    copies: bool,
    static_ids: Vec<String>,
    prefix: &'static str,
}

impl TplGen<'_> {
    fn find(&mut self, scope: &Scope, want: &[Ty]) -> Option<(Vec<String>, Ty)> {
        let mut options: Vec<(Vec<String>, Ty)> = vec![];
        let mut local: Vec<(Vec<String>, Ty)> = vec![];
        for (i, (name, ty)) in scope.vars.iter().enumerate() {
            let is_local = i >= MODEL.len() + 1;
            let out = if is_local { &mut local } else { &mut options };
            if want.contains(ty) {
                out.push((vec![name.clone()], *ty));
            }
            collect(&vec![name.clone()], *ty, want, out);
        }
        // locals are more interesting
        if !local.is_empty() && self.rng.p(0.7) {
            options = local;
        }
        if self.rng.p(0.06) {
            // items of arrays without repeats
            let index = if self.rng.p(0.1) { self.rng.below(13) } else { self.rng.below(4) };
            let mut items: Vec<(Vec<String>, Ty)> = vec![];
            for (name, ty) in &scope.vars {
                if let Some(ty) = item(*ty) {
                    let path = vec![name.clone(), index.to_string()];
                    collect(&path, ty, want, &mut items);
                    if want.contains(&ty) {
                        items.push((path, ty));
                    }
                }
            }
            if !items.is_empty() {
                options = items;
            }
        }
        if options.is_empty() {
            return None;
        }
        Some(self.rng.pick(&options).clone())
    }

    fn bind(&mut self, scope: &Scope, want: &[Ty]) -> Option<Bind> {
        let (path, ty) = self.find(scope, want)?;
        let mut pipe = vec![];
        let mut ty = ty;
        if self.rng.p(0.2) {
            match ty {
                Ty::Str => {
                    pipe.push(self.rng.word(&["up", "cut", "wrap"]));
                    if self.rng.p(0.3) {
                        pipe.push(self.rng.word(&["up", "len"]));
                    }
                }
                Ty::Num => pipe.push(self.rng.word(&["wrap", "duration"])),
                Ty::Flag => {
                    pipe.push("not".to_string());
                    ty = Ty::Num;
                }
                _ => {}
            }
        }
        if matches!(ty, Ty::ArrStr | Ty::ArrObj | Ty::ArrNest | Ty::ArrArr) {
            pipe.push("len".to_string());
        }
        if self.rng.p(0.02) {
            // not registered, the value goes through as it is
            let at = self.rng.below(pipe.len() + 1);
            pipe.insert(at, "nope".to_string());
        }
        Some(Bind { path, pipe })
    }

    fn text(&mut self, scope: &Scope) -> Vec<Span> {
        let mut out = vec![];
        if self.rng.p(0.4) {
            out.push(Span::L(self.rng.word(&["Name:", "Total is", "x-", "(", "val="])));
        }
        let n = if self.rng.p(0.1) { 3 } else { self.rng.range(1, 2) };
        for i in 0..n {
            let want: &[Ty] = if self.rng.p(0.15) {
                &[Ty::ArrStr, Ty::ArrObj, Ty::ArrNest]
            } else {
                &[Ty::Str, Ty::Str, Ty::Num, Ty::Flag, Ty::Width, Ty::Cls]
            };
            if let Some(bind) = self.bind(scope, want) {
                if i > 0 && self.rng.p(0.8) {
                    out.push(Span::L(self.rng.word(&["/", ":", "\u{2192}"])));
                }
                out.push(Span::B(bind));
            }
        }
        if self.rng.p(0.1) {
            out.push(Span::L("!".to_string()));
        }
        if out.is_empty() {
            out.push(Span::L("static".to_string()));
        }
        out
    }

    fn attrs(&mut self, scope: &Scope, node: &mut Node) {
        let p = self.p;
        if self.rng.p(p.class) {
            if self.rng.p(p.bound_class) {
                let bind = match self.bind(scope, &[Ty::Cls]) {
                    Some(bind) => bind,
                    None => return,
                };
                let mut spans = vec![];
                if self.rng.p(0.4) {
                    spans.push(Span::L(format!("{}{}", self.rng.word(&CLASSES), self.rng.word(&SEPARATORS))));
                }
                spans.push(Span::B(bind));
                if self.rng.p(0.2) {
                    if let Some(bind) = self.bind(scope, &[Ty::Cls]) {
                        spans.push(Span::L("-".to_string()));
                        spans.push(Span::B(bind));
                    }
                }
                node.attrs.push(Attr::Bound("class".to_string(), spans));
            } else {
                let mut class = self.rng.word(&CLASSES);
                if self.rng.p(0.2) {
                    class = format!("{class}{}{}", self.rng.word(&SEPARATORS), self.rng.word(&CLASSES));
                }
                node.attrs.push(Attr::Static("class".to_string(), class));
            }
        }
        if self.rng.p(p.ids) {
            if self.rng.p(0.3) && (!self.copies || self.rng.p(0.5)) {
                let id = format!("id{}{}", self.prefix, self.counter);
                self.static_ids.push(id.clone());
                node.attrs.push(Attr::Static("id".to_string(), id));
            } else if let Some(bind) = self.bind(scope, &[Ty::Id]) {
                let mut spans = vec![];
                if self.rng.p(0.2) {
                    spans.push(Span::L("x-".to_string()));
                }
                spans.push(Span::B(bind));
                if self.rng.p(0.2) {
                    if let Some(bind) = self.bind(scope, &[Ty::Id]) {
                        spans.push(Span::L("-".to_string()));
                        spans.push(Span::B(bind));
                    }
                }
                node.attrs.push(Attr::Bound("id".to_string(), spans));
            }
        }
        if self.rng.p(p.inline) {
            if self.rng.p(0.6) {
                if let (Some(w), Some(h)) =
                    (self.bind(scope, &[Ty::Width]), self.bind(scope, &[Ty::Hex]))
                {
                    let mut spans = vec![];
                    match self.rng.below(9) {
                        5 if p.vars > 0.0 => {
                            // definitions for descendants
                            spans.push(Span::L("--la: ".to_string()));
                            spans.push(Span::B(w));
                            spans.push(Span::L("px; --ca: ".to_string()));
                            spans.push(Span::B(h));
                            spans.push(Span::L(";".to_string()));
                        }
                        6 if p.vars > 0.0 => {
                            spans.push(Span::L("--lb: ".to_string()));
                            spans.push(Span::B(w));
                            spans.push(Span::L("px; height: var(--lb); color: var(--ca);".to_string()));
                        }
                        7 if p.vw > 0.0 => {
                            spans.push(Span::L("width: ".to_string()));
                            spans.push(Span::B(w));
                            spans.push(Span::L("vmin; margin-top: -3vh;".to_string()));
                        }
                        4 => {
                            spans.push(Span::L("padding-top: 2px; margin-left: ".to_string()));
                            spans.push(Span::B(w));
                            spans.push(Span::L("px; opacity: 0.7;".to_string()));
                        }
                        0 => {
                            spans.push(Span::L("height: ".to_string()));
                            spans.push(Span::B(w));
                            spans.push(Span::L("px;".to_string()));
                        }
                        1 => {
                            spans.push(Span::L("color: ".to_string()));
                            spans.push(Span::B(h));
                            spans.push(Span::L(";".to_string()));
                        }
                        _ => {
                            spans.push(Span::L("width: ".to_string()));
                            spans.push(Span::B(w));
                            spans.push(Span::L("px; background-color: ".to_string()));
                            spans.push(Span::B(h));
                            spans.push(Span::L(";".to_string()));
                        }
                    }
                    node.attrs.push(Attr::Bound("style".to_string(), spans));
                }
            } else {
                let mut style = self.rng.word(&[
                    "width: 44px; height: 20px;",
                    "color: #0000ff;",
                    "padding-left: 5px; font-size: 20px;",
                    "opacity: 0.5;",
                    "display: flex; border-top-width: 3px;",
                    "position: absolute; left: 7px; top: 9px;",
                ]);
                if p.vars > 0.0 && self.rng.p(0.5) {
                    style = self.rng.word(&[
                        "--la: 33px; --ca: #00ff00;",
                        "--la: 21px; width: var(--la);",
                        "--cb: #102030; --lb: 5vmax;",
                        "height: var(--lb); color: var(--cb);",
                        "width: var(--lc); --la: 12px;",
                    ]);
                }
                if p.vw > 0.0 && self.rng.p(0.3) {
                    style = self.rng.word(&[
                        "margin-left: -5vmin; width: 12.5vw;",
                        "height: 7vh; padding-top: 1.5vmax;",
                        "position: absolute; left: -2.5vmax; top: 3vmin;",
                    ]);
                }
                if !p.families.contains(&"flex") || p.grid {
                    style = style.replace("display: flex; ", "");
                }
                node.attrs.push(Attr::Static("style".to_string(), style));
            }
        }
        for name in ["marked", "busy"] {
            if self.rng.p(p.tagattr) {
                if let Some(bind) = self.bind(scope, &[Ty::Flag, Ty::Str, Ty::Num]) {
                    node.attrs.push(Attr::Tag(name.to_string(), bind));
                }
            }
        }
        if self.rng.p(p.data_attr) {
            if self.rng.p(0.7) {
                let spans = self.text(scope);
                node.attrs.push(Attr::Bound("data".to_string(), spans));
            } else {
                let v = self.rng.word(&["alpha", "be", "x-ray", "d e", "x-ray-two", "gamma-ray", "be-alpha d", "x"]);
                node.attrs.push(Attr::Static("data".to_string(), v));
            }
            // names with the same beginning
            if self.rng.p(0.3) {
                let name = self.rng.word(&["data-b", "dat", "data-c"]);
                let v = self.rng.word(&["alpha", "be", "x", "d e"]);
                node.attrs.insert(0, Attr::Static(name, v));
            }
        }
        if self.rng.p(p.drag) {
            if self.rng.p(0.7) {
                node.attrs.push(Attr::Static("draggable".to_string(), "true".to_string()));
            } else if let Some(bind) = self.bind(scope, &[Ty::Flag]) {
                node.attrs
                    .push(Attr::Bound("draggable".to_string(), vec![Span::B(bind)]));
            }
        }
    }

    fn args(&mut self, scope: &Scope, event: &str, k: &str) -> Vec<Arg> {
        let mut out = vec![Arg::Key(format!("{event}-{k}"))];
        if self.rng.p(self.p.keys) {
            if let Some(bind) = self.bind(scope, &[Ty::Str, Ty::Num, Ty::Flag, Ty::Obj]) {
                out[0] = Arg::B(bind);
            }
        }
        match self.p.args {
            Args::None => {}
            Args::Event => out.push(Arg::Event),
            Args::Full => {
                let n = self.rng.below(4);
                for _ in 0..n {
                    match self.rng.below(8) {
                        0 => out.push(Arg::Key("lit".to_string())),
                        1 => out.push(Arg::Event),
                        _ => {
                            let want: &[Ty] = &[
                                Ty::Str,
                                Ty::Num,
                                Ty::Flag,
                                Ty::Obj,
                                Ty::Nest,
                                Ty::ArrStr,
                                Ty::ArrObj,
                            ];
                            if let Some((path, ty)) = self.find(scope, want) {
                                let mut pipe = vec![];
                                if self.rng.p(0.25) {
                                    pipe.push(match ty {
                                        Ty::Str => self.rng.word(&["up", "cut", "wrap", "len"]),
                                        Ty::Num => "wrap".to_string(),
                                        Ty::ArrStr => self.rng.word(&["cut", "len", "wrap"]),
                                        Ty::Obj => self.rng.word(&["wrap", "len"]),
                                        _ => "not".to_string(),
                                    });
                                }
                                if self.rng.p(0.02) {
                                    pipe.insert(0, "nope".to_string());
                                }
                                out.push(Arg::B(Bind { path, pipe }));
                            }
                        }
                    }
                }
            }
        }
        out
    }

    fn listeners(&mut self, scope: &Scope, node: &mut Node) {
        let p = self.p;
        let k = node.k.clone();
        if self.rng.p(p.input) {
            let args = self.args(scope, "oninput", &k);
            node.on.push(("oninput".to_string(), args));
        }
        if self.rng.p(p.drop) {
            let args = self.args(scope, "ondrop", &k);
            node.on.push(("ondrop".to_string(), args));
        }
        if p.events.is_empty() || !self.rng.p(p.listen) {
            return;
        }
        // all of the events or some of them
        let all = self.rng.p(0.6);
        for event in p.events {
            if all || self.rng.p(0.4) {
                let args = self.args(scope, event, &k);
                node.on.push((event.to_string(), args));
            }
        }
    }

    fn name(&mut self) -> String {
        self.counter += 1;
        format!("{}{}", self.prefix, self.counter)
    }

    fn condition(&mut self, scope: &Scope) -> Option<(bool, Bind)> {
        let yes = self.rng.p(0.6);
        let want: &[Ty] = match self.rng.below(6) {
            0 => &[Ty::Obj, Ty::Nest, Ty::Mid, Ty::Leaf],
            1 => &[Ty::ArrStr, Ty::ArrObj, Ty::ArrNest],
            2 => &[Ty::Str, Ty::Num],
            _ => &[Ty::Flag],
        };
        let (path, ty) = self.find(scope, want).or_else(|| self.find(scope, &[Ty::Flag]))?;
        let mut pipe = vec![];
        if self.rng.p(0.2) {
            pipe.push(match ty {
                Ty::ArrStr | Ty::ArrObj | Ty::ArrNest | Ty::Str => self.rng.word(&["len", "not"]),
                _ => "not".to_string(),
            });
            while self.rng.p(0.3) {
                pipe.push("not".to_string());
            }
        }
        Some((yes, Bind { path, pipe }))
    }

    fn repeat(&mut self, scope: &Scope) -> Option<(String, usize, Bind, Ty)> {
        let want: &[Ty] = &[Ty::ArrStr, Ty::ArrObj, Ty::ArrObj, Ty::ArrNest, Ty::ArrArr];
        let (path, ty) = self.find(scope, want)?;
        // copies of many copies are slow
        let count = match self.copies {
            true => self.rng.range(1, 3),
            false if self.rng.p(0.08) => self.rng.range(9, 13),
            false => self.rng.range(1, 4),
        };
        let name = if self.rng.p(0.1) {
            // shadows the array itself or a field of the model
            self.rng.word(&["l0", "s0", "o0"])
        } else {
            self.counter += 1;
            format!("it{}", self.counter)
        };
        let pipe = if self.rng.p(0.1) { vec!["cut".to_string()] } else { vec![] };
        Some((name, count, Bind { path, pipe }, item(ty).unwrap()))
    }

    fn element(&mut self, scope: &Scope, depth: usize) -> Node {
        let p = self.p;
        let mut scope = scope.clone();
        let mut node = Node { k: self.name(), ..Default::default() };
        if !self.params.is_empty() && self.rng.p(0.25) {
            // component
            let index = self.rng.below(self.params.len());
            let (param, free) = self.params[index].clone();
            node.link = Some(index);
            node.tag = "link".to_string();
            let mut ok = true;
            let mut by_repeat = false;
            if let Some((name, ty)) = param {
                let array = match ty {
                    Ty::Str => Ty::ArrStr,
                    _ => Ty::ArrObj,
                };
                if free && self.rng.p(0.3) {
                    if let Some((path, _)) = self.find(&scope, &[array]) {
                        let count = self.rng.range(1, 3);
                        node.rep = Some((name.clone(), count, Bind { path, pipe: vec![] }));
                        by_repeat = true;
                    }
                }
                if !by_repeat {
                    match self.find(&scope, &[ty]) {
                        Some((path, _)) => node.alias.push((name, Bind { path, pipe: vec![] })),
                        None => ok = false,
                    }
                }
            }
            if ok {
                if free && !by_repeat && self.rng.p(p.cond) {
                    node.vis = self.condition(&scope);
                }
                if self.rng.p(0.2) {
                    let spans = self.text(&scope);
                    node.attrs.push(Attr::Bound("title".to_string(), spans));
                }
                return node;
            }
            node = Node { k: node.k, ..Default::default() };
        }
        if self.rng.p(p.img) {
            node.tag = "img".to_string();
            match self.rng.below(3) {
                0 => node.attrs.push(Attr::Static("src".to_string(), "pic.png".to_string())),
                1 => {}
                _ => {
                    if let Some(bind) = self.bind(&scope, &[Ty::Str]) {
                        let mut spans = vec![];
                        if self.rng.p(0.5) {
                            spans.push(Span::L("img/".to_string()));
                        }
                        spans.push(Span::B(bind));
                        node.attrs.push(Attr::Bound("src".to_string(), spans));
                    }
                }
            }
        } else if self.rng.p(p.input * 0.3) {
            node.tag = "input".to_string();
        } else {
            node.tag = match self.rng.below(40) {
                0 => self.rng.word(&VOIDS),
                1 | 2 => self.rng.word(&CUSTOM),
                _ => self.rng.word(&["div", "div", "div", "span", "p", "ul", "section"]),
            };
        }
        let mut copies = self.copies;
        if self.rng.p(p.alias) {
            if let Some((path, ty)) = self.find(&scope, &[Ty::Obj, Ty::ArrStr, Ty::Str, Ty::Nest, Ty::Mid, Ty::Leaf]) {
                let name = if self.rng.p(0.15) {
                    // shadows
                    self.rng.word(&["s1", "o1"])
                } else {
                    format!("al{}", self.counter)
                };
                node.alias.push((name.clone(), Bind { path, pipe: vec![] }));
                scope.vars.retain(|(n, _)| n != &name);
                scope.vars.push((name, ty));
            }
        }
        if self.rng.p(p.rep) {
            if let Some((name, count, bind, ty)) = self.repeat(&scope) {
                node.rep = Some((name.clone(), count, bind));
                scope.vars.retain(|(n, _)| n != &name);
                scope.vars.push((name, ty));
                copies = true;
            }
        } else if self.rng.p(p.cond) {
            node.vis = self.condition(&scope);
        }
        let before = std::mem::replace(&mut self.copies, copies);
        self.attrs(&scope, &mut node);
        self.listeners(&scope, &mut node);
        if !is_void(&node.tag) {
            self.kids(&scope, depth, &mut node);
        }
        self.copies = before;
        node
    }

    fn kids(&mut self, scope: &Scope, depth: usize, node: &mut Node) {
        let n = if depth == 0 { 0 } else { self.rng.range(0, 3) };
        let mut last_text = false;
        if self.rng.p(self.p.text) {
            let text = self.text(scope);
            node.kids.push(Kid::Text(text));
            last_text = true;
        }
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            node.kids.push(Kid::El(self.element(scope, depth - 1)));
            last_text = false;
            if self.rng.p(self.p.text * 0.3) {
                let text = self.text(scope);
                node.kids.push(Kid::Text(text));
                last_text = true;
            }
        }
        let _ = last_text;
    }
}

pub fn template(rng: &mut Rng, p: &Profile) -> Template {
    let globals = Scope {
        vars: model().map(|(n, t)| (n.to_string(), t)).collect(),
    };
    let mut tpl = Template::default();
    let mut params: Vec<(Option<(String, Ty)>, bool)> = vec![];
    for index in 0..p.comps {
        let ty = *rng.pick(&[Ty::Obj, Ty::Str]);
        let param = if rng.p(0.8) { Some((format!("par{index}"), ty)) } else { None };
        let mut gen = TplGen {
            rng,
            p,
            counter: index * 100,
            left: 3,
            // components include the previous ones
            params: params.clone(),
            copies: true,
            static_ids: vec![],
            prefix: "c",
        };
        let mut scope = globals.clone();
        if let Some((name, ty)) = &param {
            scope.vars.push((name.clone(), *ty));
        }
        let mut root = Node {
            k: gen.name(),
            tag: gen.rng.word(&["div", "section", "li"]),
            ..Default::default()
        };
        if param.is_none() && gen.rng.p(0.3) {
            root.vis = gen.condition(&scope);
        }
        if gen.rng.p(p.alias) {
            if let Some((path, ty)) = gen.find(&scope, &[Ty::Obj, Ty::Str]) {
                let name = format!("cal{index}");
                root.alias.push((name.clone(), Bind { path, pipe: vec![] }));
                scope.vars.push((name, ty));
            }
        }
        gen.attrs(&scope, &mut root);
        gen.listeners(&scope, &mut root);
        gen.kids(&scope, 1, &mut root);
        params.push((param, root.vis.is_none() && root.rep.is_none()));
        tpl.comps.push(root);
    }
    let mut gen = TplGen {
        rng,
        p,
        counter: 0,
        left: p.nodes,
        params,
        copies: false,
        static_ids: vec![],
        prefix: "e",
    };
    let mut body = Node {
        k: "body".to_string(),
        tag: "body".to_string(),
        ..Default::default()
    };
    gen.listeners(&globals, &mut body);
    let n = gen.rng.range(2, p.wide);
    for _ in 0..n {
        gen.left = gen.left.saturating_sub(1);
        let kid = gen.element(&globals, p.depth - 1);
        body.kids.push(Kid::El(kid));
    }
    tpl.body = body;
    tpl
}

/// Names of the model used by template.
fn used(tpl: &Template) -> Vec<String> {
    let text = tpl.print(&mut Style::new(0));
    model()
        .map(|(name, _)| name.to_string())
        .filter(|name| text.contains(&format!("{{{name}")))
        .collect()
}

// ---------------------------------------------------------------- stylesheets

struct CssGen<'a> {
    rng: &'a mut Rng,
    p: &'a Profile,
    vars: bool,
    /// only integer lengths
    whole: bool,
}

fn kw(s: &str) -> V {
    V::Kw(s.to_string())
}

impl CssGen<'_> {
    fn color(&mut self) -> V {
        if self.vars && self.rng.p(self.p.vars * 0.5) {
            return V::Var(self.rng.word(&["--ca", "--cb"]));
        }
        match self.rng.below(8) {
            0 => kw("red"),
            1 => kw("transparent"),
            2 if self.rng.p(0.2) => kw("currentColor"),
            2 => kw("currentcolor"),
            3 if self.rng.p(0.5) => {
                let mut args = vec![];
                let n = self.rng.range(3, 4);
                for _ in 0..n {
                    args.push(match self.rng.below(6) {
                        0 => V::Zero,
                        1 | 2 if self.rng.p(0.1) => V::Pct(*self.rng.pick(&[-20.0, 100.5, 250.0])),
                        1 | 2 => V::Pct(self.rng.below(101) as f32),
                        3 if self.vars => V::Var("--na".to_string()),
                        // out of range
                        4 if self.rng.p(0.4) => V::Num(*self.rng.pick(&[-1.0, 255.5, 256.0, 300.0, 70000.0])),
                        _ => V::Num(self.rng.below(256) as f32),
                    });
                }
                if n == 4 {
                    args[3] = match self.rng.below(3) {
                        0 => V::Pct(self.rng.below(101) as f32),
                        1 if self.rng.p(0.2) => V::Num(*self.rng.pick(&[-0.5, 1.5, 300.0])),
                        _ => V::Num(self.rng.below(5) as f32 / 4.0),
                    };
                }
                V::Fn(if n == 3 { "rgb" } else { "rgba" }.to_string(), args)
            }
            3 => V::Rgb(self.rng.below(256) as u8, 20, 30),
            4 => V::Col([10, 200, self.rng.below(256) as u8, 128]),
            _ => V::Col([self.rng.below(256) as u8, 40, 50, 255]),
        }
    }

    fn length(&mut self, max: usize) -> V {
        if self.vars && self.rng.p(self.p.vars * 0.4) {
            return V::Var(self.rng.word(&["--la", "--lb", "--lc"]));
        }
        if self.rng.p(self.p.vw) {
            let mut n = self.rng.range(1, 40) as f32;
            if !self.whole && self.rng.p(0.2) {
                n /= 4.0;
            }
            return match self.rng.below(4) {
                0 => V::Vw(n),
                1 => V::Vh(n),
                2 => V::Vmin(n),
                _ => V::Vmax(n),
            };
        }
        if self.p.extreme && self.rng.p(0.1) {
            return match self.rng.below(4) {
                0 => V::Px(10000000.0),
                1 => V::Px(-50.0),
                2 => V::Rem(100000.0),
                _ => V::Px(0.001),
            };
        }
        match self.rng.below(8) {
            0 => V::Zero,
            1 if !self.whole => V::Rem(self.rng.range(1, 3) as f32),
            2 if !self.whole => V::Px(self.rng.below(max * 4) as f32 / 4.0),
            _ => V::Px(self.rng.range(1, max) as f32),
        }
    }

    /// Margins and insets can be negative.
    fn signed(&mut self, max: usize) -> V {
        let value = self.length(max);
        if !self.rng.p(0.15) {
            return value;
        }
        match value {
            V::Px(v) => V::Px(-v),
            V::Rem(v) => V::Rem(-v),
            V::Vw(v) => V::Vw(-v),
            V::Vh(v) => V::Vh(-v),
            V::Vmin(v) => V::Vmin(-v),
            V::Vmax(v) => V::Vmax(-v),
            value => value,
        }
    }

    fn length_pct(&mut self, max: usize) -> V {
        if !self.whole && self.rng.p(0.15) {
            V::Pct(self.rng.range(1, 100) as f32)
        } else {
            self.length(max)
        }
    }

    fn one(&mut self, name: &str, value: V) -> Decl {
        Decl(name.to_string(), vec![vec![value]])
    }

    fn many(&mut self, name: &str, values: Vec<V>) -> Decl {
        Decl(name.to_string(), vec![values])
    }

    fn decl(&mut self, family: &str) -> Decl {
        match family {
            "size" => {
                let name = self.rng.word(&[
                    "width",
                    "width",
                    "height",
                    "height",
                    "min-width",
                    "min-height",
                    "max-width",
                    "max-height",
                ]);
                let value = if self.rng.p(0.1) { kw("auto") } else { self.length_pct(160) };
                self.one(&name, value)
            }
            "box" => match self.rng.below(7) {
                0 => {
                    let name = self.rng.word(&["margin", "padding", "border-width"]);
                    let n = self.rng.range(1, 4);
                    let margin = name == "margin";
                    let values =
                        (0..n).map(|_| if margin { self.signed(12) } else { self.length(12) }).collect();
                    self.many(&name, values)
                }
                1 => {
                    let name = self.rng.word(&["margin-top", "margin-left", "margin-right", "margin-bottom"]);
                    let value = if self.rng.p(0.2) { kw("auto") } else { self.signed(20) };
                    self.one(&name, value)
                }
                2 => {
                    let name = self.rng.word(&["padding-top", "padding-left", "padding-bottom", "padding-right"]);
                    let value = self.length_pct(20);
                    self.one(&name, value)
                }
                3 => {
                    let values = if self.rng.p(0.2) {
                        vec![kw("none")]
                    } else {
                        vec![V::Px(self.rng.range(1, 5) as f32), kw("solid"), self.color()]
                    };
                    let name = if values.len() == 1 {
                        "border".to_string()
                    } else {
                        self.rng.word(&["border", "border", "border-top", "border-left", "border-right", "border-bottom"])
                    };
                    self.many(&name, values)
                }
                4 => {
                    let name = self.rng.word(&["border-left-width", "border-bottom-width", "border-top-width", "border-right-width"]);
                    let value = self.length(8);
                    self.one(&name, value)
                }
                5 => {
                    let value = self.rng.word(&["border-box", "content-box"]);
                    self.one("box-sizing", kw(&value))
                }
                _ => {
                    let name = self.rng.word(&["margin-bottom", "padding-right"]);
                    let value = self.length(15);
                    self.one(&name, value)
                }
            },
            "flex" => match self.rng.below(9) {
                0 | 1 => {
                    let v = match self.p.grid {
                        true => self.rng.word(&["block", "grid", "grid"]),
                        false => self.rng.word(&["flex", "flex", "flex", "block"]),
                    };
                    self.one("display", kw(&v))
                }
                2 => {
                    let v =
                        self.rng.word(&["row", "column", "row-reverse", "column-reverse"]);
                    self.one("flex-direction", kw(&v))
                }
                3 => {
                    let name = self.rng.word(&["flex-grow", "flex-shrink"]);
                    let v = match self.rng.below(3) {
                        0 => V::Zero,
                        1 => V::Num(1.0),
                        _ => V::Num(2.5),
                    };
                    self.one(&name, v)
                }
                4 => {
                    let name = self.rng.word(&["align-items", "align-self", "justify-items", "justify-self"]);
                    let v = self
                        .rng
                        .word(&["start", "end", "center", "stretch", "flex-end", "normal"]);
                    self.one(&name, kw(&v))
                }
                5 => {
                    let name = self.rng.word(&["justify-content", "align-content"]);
                    let v = self.rng.word(&[
                        "start",
                        "end",
                        "center",
                        "space-between",
                        "space-around",
                        "space-evenly",
                        "normal",
                    ]);
                    self.one(&name, kw(&v))
                }
                6 => {
                    let name = self.rng.word(&["gap", "row-gap", "column-gap"]);
                    let v = self.length(12);
                    self.one(&name, v)
                }
                7 => {
                    let v = self.rng.word(&["wrap", "nowrap", "wrap-reverse"]);
                    self.one("flex-wrap", kw(&v))
                }
                _ => {
                    let v = if self.rng.p(0.2) { kw("auto") } else { self.length_pct(60) };
                    self.one("flex-basis", v)
                }
            },
            "pos" => match self.rng.below(5) {
                0 => {
                    let v = self.rng.word(&["absolute", "relative"]);
                    self.one("position", kw(&v))
                }
                1 => {
                    let n = if self.rng.p(0.5) { 1 } else { 4 };
                    let values = (0..n).map(|_| self.signed(30)).collect();
                    self.many("inset", values)
                }
                2 => {
                    let v = V::Px(-(self.rng.range(1, 30) as f32));
                    let name = self.rng.word(&["margin-left", "margin-top", "left", "top"]);
                    self.one(&name, v)
                }
                _ => {
                    let name = self.rng.word(&["left", "top", "right", "bottom"]);
                    let v = match self.rng.below(7) {
                        0 => kw("auto"),
                        1..=3 => self.signed(40),
                        _ => self.length_pct(40),
                    };
                    self.one(&name, v)
                }
            },
            "font" => match self.rng.below(7) {
                0..=2 => {
                    let v = if self.whole {
                        V::Px(self.rng.range(6, 40) as f32)
                    } else {
                        match self.rng.below(5) {
                            0 => V::Em(1.5),
                            1 => V::Pct(150.0),
                            2 => V::Rem(2.0),
                            _ => V::Px(self.rng.range(6, 40) as f32),
                        }
                    };
                    self.one("font-size", v)
                }
                3 => {
                    let v = match self.rng.below(3) {
                        0 => kw("bold"),
                        1 => kw("normal"),
                        _ => V::Num(match self.rng.below(8) {
                            0 => *self.rng.pick(&[0.0, 0.5, 1.0, 999.0, 1000.0, 1001.0]),
                            1 => self.rng.range(1, 1000) as f32,
                            _ => self.rng.range(1, 9) as f32 * 100.0,
                        }),
                    };
                    self.one("font-weight", v)
                }
                4 => {
                    let v = self.rng.word(&["mono", "serif", "Noto Sans"]);
                    self.one("font-family", V::S(v))
                }
                5 => {
                    let v = self.rng.word(&["italic", "normal", "oblique"]);
                    self.one("font-style", kw(&v))
                }
                _ => {
                    let v = self.rng.word(&["center", "right", "justify", "start", "left", "end"]);
                    self.one("text-align", kw(&v))
                }
            },
            "paint" => match self.rng.below(9) {
                0 | 1 => {
                    let v = self.color();
                    self.one("color", v)
                }
                2 => {
                    let v = self.color();
                    self.one("background-color", v)
                }
                3 => {
                    let v = self.color();
                    self.one("background", v)
                }
                4 => {
                    let layers = if self.rng.p(0.15) { self.rng.range(3, 4) } else { self.rng.range(1, 2) };
                    let layers = (0..layers)
                        .map(|_| {
                            vec![match self.rng.below(3) {
                                0 => V::Url("a.png".to_string()),
                                1 => V::S("b.png".to_string()),
                                _ => kw("none"),
                            }]
                        })
                        .collect();
                    Decl("background-image".to_string(), layers)
                }
                5 => {
                                        if self.rng.p(0.3) {
                        let n = self.rng.range(2, 4);
                        let values = (0..n).map(|_| self.color()).collect();
                        return self.many("border-color", values);
                    }
                    let name = self.rng.word(&[
                        "border-color",
                        "border-top-color",
                        "border-right-color",
                        "border-bottom-color",
                        "border-left-color",
                    ]);
                    let v = self.color();
                    self.one(&name, v)
                }
                6 => {
                    if self.rng.p(0.3) {
                        let corner = self.rng.word(&["top-left", "top-right", "bottom-left", "bottom-right"]);
                        let v = self.length_pct(10);
                        return self.one(&format!("border-{corner}-radius"), v);
                    }
                    let n = self.rng.range(1, 4);
                    let values = (0..n).map(|_| self.length_pct(10)).collect();
                    self.many("border-radius", values)
                }
                7 => {
                    let v = match self.rng.below(4) {
                        0 => V::Zero,
                        1 => V::Pct(50.0),
                        _ => V::Num(self.rng.range(1, 9) as f32 / 10.0),
                    };
                    self.one("opacity", v)
                }
                _ => {
                    let v = V::Px(self.rng.range(1, 30) as f32);
                    let mut values = vec![v];
                    if self.rng.p(0.5) {
                        values.push(V::Px(self.rng.range(1, 30) as f32));
                    }
                    Decl("background-position".to_string(), vec![values])
                }
            },
            "misc" => match self.rng.below(4) {
                0 | 1 => {
                    let v = self.rng.word(&[
                        "pointer", "help", "wait", "text", "auto", "default", "progress", "not-allowed",
                        "context-menu",
                    ]);
                    self.one("cursor", kw(&v))
                }
                2 => {
                    let v = self.rng.word(&["hidden", "visible"]);
                    self.one("visibility", kw(&v))
                }
                _ => {
                    let v = self.rng.word(&["none", "auto"]);
                    self.one("pointer-events", kw(&v))
                }
            },
            "overflow" => match self.rng.below(3) {
                0 => {
                    let n = self.rng.range(1, 2);
                    let values =
                        (0..n).map(|_| kw(&self.rng.word(&["hidden", "visible", "scroll", "clip", "auto"]))).collect();
                    self.many("overflow", values)
                }
                1 => {
                    let name = self.rng.word(&["overflow-x", "overflow-y"]);
                    let v = self.rng.word(&["hidden", "visible", "scroll", "clip", "auto"]);
                    self.one(&name, kw(&v))
                }
                _ => {
                    let name = self.rng.word(&["height", "width"]);
                    let v = V::Px(self.rng.range(5, 40) as f32);
                    self.one(&name, v)
                }
            },
            f => panic!("harness: family {f}"),
        }
    }

    fn compound(&mut self) -> Vec<Simple> {
        let mut out = vec![];
        match self.rng.below(10) {
            0 => out.push(Simple::All),
            1 | 2 => out.push(Simple::Type(match self.rng.below(20) {
                0 => self.rng.word(&VOIDS),
                1 => self.rng.word(&CUSTOM[..5]),
                _ => self.rng.word(&["div", "span", "p", "ul", "section", "body", "li"]),
            })),
            3 if self.p.ids > 0.0 => out.push(Simple::Id(match self.rng.below(4) {
                0 => format!("x-{}", self.rng.word(&IDS)),
                1 => format!("{}-{}", self.rng.word(&IDS), self.rng.word(&IDS)),
                _ => self.rng.word(&IDS),
            })),
            4 if self.p.tagattr > 0.0 => {
                out.push(Simple::Attr(self.rng.word(&["marked", "busy"]), String::new(), String::new()))
            }
            5 if self.p.data_attr > 0.0 => {
                let op = self.rng.word(&["", "=", "~=", "|=", "^=", "$=", "*="]);
                let v = self.rng.word(&["alpha", "be", "x", "d", "gamma", "a", "x-ray", "gamma-ray", "ray", "be-alpha", "x-"]);
                let name = match self.rng.below(8) {
                    0 => "data-b",
                    1 => "dat",
                    _ => "data",
                };
                out.push(Simple::Attr(name.to_string(), op, v));
            }
            6 => {
                let name = self.rng.word(&["class", "class", "id", "title", "src", "draggable", "style"]);
                let op = self.rng.word(&["", "", "=", "~=", "|=", "^=", "$=", "*="]);
                let v = self.rng.word(&["a", "b", "ida", "id", "x", "true", "alpha", "pic"]);
                out.push(Simple::Attr(name, op, v));
            }
            _ => {
                out.push(Simple::Class(self.rng.word(&CLASSES)));
                if self.rng.p(0.15) {
                    out.push(Simple::Class(self.rng.word(&CLASSES)));
                }
            }
        }
        if self.rng.p(self.p.pseudo) {
            out.push(Simple::Pseudo(self.rng.word(&["hover", "hover", "active", "focus"])));
        }
        out
    }

    fn complex(&mut self) -> Complex {
        let mut out = vec![(' ', self.compound())];
        while out.len() < 3 && self.rng.p(self.p.combinators) {
            let comb = if self.rng.p(0.5) { '>' } else { '+' };
            out.push((comb, self.compound()));
        }
        Complex(out)
    }

    fn rule(&mut self) -> Rule {
        let n = if self.rng.p(0.15) { 2 } else { 1 };
        let sel = (0..n).map(|_| self.complex()).collect();
        let n = self.rng.range(1, 4);
        let decls = (0..n)
            .map(|_| {
                let family = *self.rng.pick(self.p.families);
                let mut decl = self.decl(family);
                if self.rng.p(self.p.lists) && decl.1.len() == 1 {
                    // several values of a property: layers of backgrounds, otherwise the last one
                    for _ in 0..40 {
                        if decl.1.len() >= 4 || self.rng.p(0.1) {
                            break;
                        }
                        let other = self.decl(family);
                        if other.0 == decl.0 {
                            decl.1.extend(other.1);
                        }
                    }
                    decl.1.truncate(4);
                }
                decl
            })
            .collect();
        Rule { sel, decls }
    }
}

fn class(name: &str) -> Vec<Complex> {
    vec![Complex(vec![(' ', vec![Simple::Class(name.to_string())])])]
}

fn tag(name: &str) -> Vec<Complex> {
    vec![Complex(vec![(' ', vec![Simple::Type(name.to_string())])])]
}

pub fn sheet(rng: &mut Rng, p: &Profile, whole: bool) -> Sheet {
    let mut out = Sheet::default();
    if p.sized {
        // boxes which pointer can hit
        for name in ["div", "span", "p", "ul", "section"] {
            let mut decls = vec![Decl(
                "width".to_string(),
                vec![vec![V::Px(rng.range(3, 15) as f32 * 10.0)]],
            )];
            if rng.p(0.6) {
                decls.push(Decl(
                    "height".to_string(),
                    vec![vec![V::Px(rng.range(1, 6) as f32 * 10.0)]],
                ));
            } else {
                decls.push(Decl("padding".to_string(), vec![vec![V::Px(6.0)]]));
            }
            out.rules.push(Rule { sel: tag(name), decls });
        }
    }
    let vars = rng.p(p.vars * 2.0);
    if vars {
        // definitions come first
        let mut g = CssGen { rng, p, vars: false, whole };
        for (i, sel) in [tag("body"), class("a"), class("b")].into_iter().enumerate() {
            if i > 0 && g.rng.p(0.5) {
                continue;
            }
            let mut decls = vec![];
            for name in ["--ca", "--cb"] {
                if g.rng.p(0.7) {
                    let v = g.color();
                    decls.push(g.one(name, v));
                }
            }
            for name in ["--la", "--lb"] {
                if g.rng.p(0.7) {
                    let v = g.length(60);
                    decls.push(g.one(name, v));
                }
            }
            if g.rng.p(0.5) {
                decls.push(g.one("--lc", V::Var("--la".to_string())));
            }
            if g.rng.p(0.4) {
                let v = match g.rng.below(3) {
                    0 => V::Pct(g.rng.below(101) as f32),
                    _ => V::Num(g.rng.below(256) as f32),
                };
                decls.push(g.one("--na", v));
            }
            if p.extreme && g.rng.p(0.1) {
                // a cycle
                decls.push(g.one("--la", V::Var("--lb".to_string())));
                decls.push(g.one("--lb", V::Var("--la".to_string())));
            }
            if !decls.is_empty() {
                out.rules.push(Rule { sel, decls });
            }
        }
    }
    let n = if p.rules == 0 { 0 } else { rng.range(p.rules / 2, p.rules) };
    for _ in 0..n {
        let mut g = CssGen { rng, p, vars, whole };
        let mut rule = g.rule();
        if vars && g.rng.p(0.12) {
            // definition depends on state, attributes or place of element
            let decl = if g.rng.p(0.5) {
                let name = g.rng.word(&["--ca", "--cb"]);
                g.vars = false;
                let v = g.color();
                g.one(&name, v)
            } else {
                let name = g.rng.word(&["--la", "--lb"]);
                g.vars = false;
                let v = g.length(60);
                g.one(&name, v)
            };
            let at = g.rng.below(rule.decls.len() + 1);
            rule.decls.insert(at, decl);
        }
        out.rules.push(rule);
    }
    match p.time {
        Time::None => {}
        Time::Transitions => transitions(rng, p, &mut out),
        Time::Animations => animations(rng, p, &mut out, false),
        Time::Finite => {
            if rng.p(0.7) {
                transitions(rng, p, &mut out);
            }
            if rng.p(0.7) {
                animations(rng, p, &mut out, true);
            }
        }
        Time::Any => {
            if rng.p(0.5) {
                transitions(rng, p, &mut out);
            }
            if rng.p(0.5) {
                animations(rng, p, &mut out, false);
            }
        }
    }
    out
}

fn seconds(rng: &mut Rng, v: f32) -> V {
    if rng.p(0.15) {
        V::Ms((v * 1000.0).round())
    } else {
        V::T(v)
    }
}

/// Negative ones start midway.
const DELAYS: [f32; 6] = [0.2, 0.5, 1.0, 0.1, -0.1, -0.75];
const DURATIONS: [f32; 7] = [0.1, 0.25, 0.3, 0.5, 1.0, 2.0, 3.7];

fn time_color(rng: &mut Rng) -> V {
    match rng.below(8) {
        0 => kw(&rng.word(&["red", "black", "white", "green", "blue", "transparent"])),
        // corners
        1 | 2 => V::Col(std::array::from_fn(|_| *rng.pick(&[0, 0, 255, 255, 1, 254, 128]))),
        _ => V::Col([
            rng.below(256) as u8,
            rng.below(256) as u8,
            rng.below(256) as u8,
            if rng.p(0.5) { 255 } else { rng.below(256) as u8 },
        ]),
    }
}

fn time_value(rng: &mut Rng, property: &str) -> V {
    match property {
        "opacity" => V::Num(rng.below(11) as f32 / 10.0),
        "flex-grow" | "flex-shrink" => V::Num(rng.range(1, 5) as f32),
        "visibility" => kw(&rng.word(&["visible", "hidden"])),
        "background-image" => match rng.below(4) {
            0 => kw("none"),
            _ => V::Url(rng.word(&["a.png", "b.png"])),
        },
        "background-position" => match rng.below(5) {
            0 => V::Zero,
            _ => V::Px(rng.below(201) as f32 - 100.0),
        },
        n if n.ends_with("color") => time_color(rng),
        "font-size" => V::Px(rng.range(6, 40) as f32),
        n if n.starts_with("border") && n.ends_with("width") => match rng.below(5) {
            0 => V::Zero,
            _ => V::Px(rng.below(41) as f32),
        },
        // units are mixed
        n => match rng.below(12) {
            0 | 1 => V::Pct(rng.below(101) as f32),
            2 => V::Zero,
            3 => V::Rem(rng.range(1, 9) as f32 / 2.0),
            4 => V::Vw(rng.range(1, 30) as f32),
            5 if matches!(
                n,
                "width" | "height" | "left" | "right" | "top" | "bottom" | "margin-left" | "margin-top"
            ) =>
            {
                kw("auto")
            }
            6 if matches!(n, "left" | "right" | "top" | "bottom" | "margin-left" | "margin-top") => {
                V::Px(-(rng.below(100) as f32))
            }
            _ => V::Px(rng.below(301) as f32),
        },
    }
}

/// Some properties have layers.
fn time_decl(rng: &mut Rng, property: &str) -> Decl {
    let mut layers = vec![vec![time_value(rng, property)]];
    match property {
        "background-position" => {
            if rng.p(0.8) {
                layers[0].push(time_value(rng, property));
            }
        }
        "background-color" | "background-image" => {
            while layers.len() < 3 && rng.p(0.2) {
                layers.push(vec![time_value(rng, property)]);
            }
        }
        _ => {}
    }
    Decl(property.to_string(), layers)
}

const TIMED: [&str; 32] = [
    "width",
    "height",
    "color",
    "background-color",
    "background-color",
    "opacity",
    "left",
    "padding-left",
    "border-top-width",
    "font-size",
    "flex-grow",
    "top",
    "margin-left",
    "min-height",
    "flex-basis",
    "row-gap",
    "border-left-color",
    "border-bottom-left-radius",
    "right",
    "bottom",
    "max-width",
    "padding-top",
    "margin-top",
    "column-gap",
    "flex-shrink",
    "border-top-color",
    "border-right-width",
    "border-top-right-radius",
    "visibility",
    "background-image",
    // only in keyframes
    "background-position",
    "background-position",
];

/// Rules with values of the property: initial ones, by classes, by pseudo classes, by attributes.
fn timed_values(rng: &mut Rng, p: &Profile, property: &str, always: bool, out: &mut Sheet) {
    if always || rng.p(0.85) {
        let decl = time_decl(rng, property);
        let sel = if rng.p(0.7) { tag("div") } else { vec![Complex(vec![(' ', vec![Simple::All])])] };
        out.rules.push(Rule { sel, decls: vec![decl] });
    }
    let n = rng.range(1, 3);
    for _ in 0..n {
        let decl = time_decl(rng, property);
        let mut compound = vec![if rng.p(0.8) {
            Simple::Class(rng.word(&CLASSES))
        } else {
            Simple::Attr(rng.word(&["marked", "busy"]), String::new(), String::new())
        }];
        if rng.p(p.pseudo) {
            compound = vec![Simple::Type("div".to_string())];
            compound.push(Simple::Pseudo(rng.word(&["hover", "active"])));
        }
        out.rules.push(Rule {
            sel: vec![Complex(vec![(' ', compound)])],
            decls: vec![decl],
        });
    }
}

/// The shorthand, or sometimes declarations of its parts in any order.
fn longhands(rng: &mut Rng, decl: Decl) -> Vec<Decl> {
    if !rng.p(0.15) {
        return vec![decl];
    }
    let Decl(kind, layers) = &decl;
    let part = |layer: &[V], name: &str| -> Option<V> {
        let position = match (kind.as_str(), name) {
            ("transition", "property") => 0,
            ("transition", "duration") => 1,
            ("transition", "timing-function") => 2,
            ("transition", _) => 3,
            (_, "duration") => 0,
            (_, "timing-function") => 1,
            (_, "name") => layer.len() - 1,
            (_, name) => {
                let is_delay = matches!(layer.get(2), Some(V::T(_)));
                if layer.len() < 4 || is_delay != (name == "delay") {
                    return None;
                }
                2
            }
        };
        layer.get(position).cloned()
    };
    let names: &[&str] = match kind.as_str() {
        "transition" => &["property", "duration", "timing-function", "delay"],
        _ => &["duration", "timing-function", "delay", "iteration-count", "name"],
    };
    let mut decls = vec![];
    for name in names {
        let values: Vec<Option<V>> = layers.iter().map(|layer| part(layer, name)).collect();
        if values.iter().all(Option::is_none) {
            continue;
        }
        let default = match *name {
            "delay" => V::T(0.0),
            "iteration-count" => V::Num(1.0),
            _ => kw("linear"),
        };
        let values = values.into_iter().map(|v| vec![v.unwrap_or(default.clone())]).collect();
        decls.push(Decl(format!("{kind}-{name}"), values));
    }
    for i in (1..decls.len()).rev() {
        let j = rng.below(i + 1);
        decls.swap(i, j);
    }
    decls
}

fn transitions(rng: &mut Rng, p: &Profile, out: &mut Sheet) {
    let n = rng.range(1, 2);
    let mut properties: Vec<&str> = vec![];
    for _ in 0..n {
        let property = match *rng.pick(&TIMED) {
            "background-position" => "background-color",
            property => property,
        };
        if !properties.contains(&property) {
            properties.push(property);
        }
    }
    for property in &properties {
        timed_values(rng, p, property, false, out);
    }
    let mut layers = vec![];
    for property in &properties {
        let duration = if rng.p(0.06) { 0.0 } else { *rng.pick(&DURATIONS) };
        let mut values = vec![kw(property), seconds(rng, duration)];
        if rng.p(0.5) {
            values.push(kw("linear"));
            if rng.p(0.6) {
                values.push(V::T(*rng.pick(&DELAYS)));
            }
        }
        layers.push(values);
    }
    // layers must have the same shape, otherwise settings of the last ones are not specified
    let decls = longhands(rng, Decl("transition".to_string(), layers));
    // the transition itself can start and stop to be specified
    let sel = match rng.below(4) {
        0 => class(&rng.word(&CLASSES)),
        _ => tag("div"),
    };
    out.rules.push(Rule { sel, decls });
    if rng.p(0.25) {
        // settings change
        let name = rng.word(&["transition-duration", "transition-delay"]);
        let times = if rng.p(0.3) { 2 } else { 1 };
        let times = (0..times).map(|_| {
            let v = *rng.pick(if name.ends_with("delay") { &DELAYS[..] } else { &DURATIONS[..] });
            vec![if rng.p(0.1) { V::T(0.0) } else { seconds(rng, v) }]
        });
        let times = times.collect();
        let decl = Decl(name, times);
        out.rules.push(Rule { sel: class(&rng.word(&CLASSES)), decls: vec![decl] });
    }
}

fn animations(rng: &mut Rng, p: &Profile, out: &mut Sheet, finite: bool) {
    let n = rng.range(1, 2);
    let mut names = vec![];
    let mut taken: Vec<&str> = vec![];
    for i in 0..n {
        let name = ["pulse", "slide"][i];
        let mut properties = vec![];
        for _ in 0..rng.range(1, 2) {
            let property = *rng.pick(&TIMED);
            if !taken.contains(&property) {
                taken.push(property);
                properties.push(property);
            }
        }
        if properties.is_empty() {
            continue;
        }
        let shorthand = rng.p(0.1) && !taken.iter().any(|name| name.starts_with("padding"));
        if shorthand {
            taken.extend(["padding-left", "padding-top"]);
        }
        let mut steps: Vec<u32> = vec![];
        if rng.p(0.8) {
            steps.push(0);
        }
        for _ in 0..rng.below(3) {
            steps.push(rng.range(1, 99) as u32);
        }
        if rng.p(0.8) || steps.is_empty() {
            steps.push(100);
        }
        steps.sort();
        steps.dedup();
        let mut frames: Vec<(u32, Vec<Decl>)> = vec![];
        for step in steps {
            let mut decls = vec![];
            for property in &properties {
                if rng.p(0.85) {
                    decls.push(time_decl(rng, property));
                }
            }
            if shorthand {
                let values = (0..rng.range(1, 4)).map(|_| V::Px(rng.below(30) as f32)).collect();
                decls.push(Decl("padding".to_string(), vec![values]));
            }
            if !decls.is_empty() {
                frames.push((step, decls));
            }
        }
        if frames.is_empty() {
            continue;
        }
        for property in &properties {
            let always = !rng.p(0.1);
            timed_values(rng, p, property, always, out);
        }
        let words = rng.p(0.4);
        let part = if rng.p(0.1) { rng.range(1, 9) as u8 } else { 0 };
        out.keyframes.push(Keyframes { name: name.to_string(), frames, words, part });
        names.push(name);
    }
    if names.is_empty() {
        return;
    }
    // where animations are specified
    let separate = rng.p(0.5);
    let groups: Vec<Vec<&str>> = if !separate {
        vec![names.clone()]
    } else {
        names.iter().map(|name| vec![*name]).collect()
    };
    for group in groups {
        let mut layers = vec![];
        for name in group {
            let duration = *rng.pick(&DURATIONS);
            let duration = seconds(rng, duration);
            let kind = if finite { rng.below(2) } else { rng.below(4) };
            layers.push(match kind {
                0 => vec![duration, kw("linear"), kw(name)],
                1 => {
                    let n = match rng.below(6) {
                        0 => 0.5,
                        1 => 1.75,
                        2 => 40.0,
                        _ => rng.range(1, 3) as f32,
                    };
                    vec![duration, kw("linear"), V::Num(n), kw(name)]
                }
                2 => vec![duration, kw("linear"), V::T(*rng.pick(&DELAYS)), kw(name)],
                _ => vec![duration, kw("linear"), kw("infinite"), kw(name)],
            });
        }
        let sel = match rng.below(6) {
            0 => tag("div"),
            1 => vec![Complex(vec![(
                ' ',
                vec![Simple::Type("div".to_string()), Simple::Pseudo("hover".to_string())],
            )])],
            _ => class(&rng.word(&CLASSES)),
        };
        out.rules.push(Rule {
            sel,
            decls: longhands(rng, Decl("animation".to_string(), layers)),
        });
    }
    if rng.p(0.2) {
        // delay and iterations together
        let mut decls = vec![];
        decls.push(match rng.below(3) {
            0 => Decl("animation-delay".to_string(), vec![vec![V::T(*rng.pick(&DELAYS))]]),
            1 => Decl("animation-iteration-count".to_string(), vec![vec![V::Num(2.0)]]),
            _ => Decl("animation-duration".to_string(), vec![vec![V::T(*rng.pick(&DURATIONS))]]),
        });
        let sel = if rng.p(0.5) { tag("div") } else { class(&rng.word(&CLASSES)) };
        out.rules.push(Rule { sel, decls });
    }
    if names.len() > 1 && separate && rng.p(0.3) {
        // the other animation instead of the first one
        let sel = class(&rng.word(&CLASSES));
        let decls = vec![Decl("animation-name".to_string(), vec![vec![kw(names[1])]])];
        out.rules.push(Rule { sel, decls });
    }
    if rng.p(0.08) {
        // nothing to play
        let name = rng.word(&["blank", "missing"]);
        if name == "blank" {
            let words = rng.p(0.5);
            let frames = if rng.p(0.5) { vec![] } else { vec![(rng.range(0, 100) as u32, vec![])] };
            out.keyframes.push(Keyframes { name: name.clone(), frames, words, part: 0 });
        }
        let sel = class(&rng.word(&CLASSES));
        let layer = vec![V::T(*rng.pick(&DURATIONS)), kw("linear"), kw(&name)];
        out.rules.push(Rule { sel, decls: vec![Decl("animation".to_string(), vec![layer])] });
    }
    if !finite && rng.p(0.3) {
        let sel = class(&rng.word(&CLASSES));
        out.rules.push(Rule {
            sel,
            decls: vec![Decl("animation-play-state".to_string(), vec![vec![kw("paused")]])],
        });
    }
}

// ---------------------------------------------------------------- the world

#[derive(Clone, Debug)]
enum Happen {
    App,
    Deliver(Value, bool, Vec<&'static str>),
    Gesture,
    Input(Ev, Vec<&'static str>),
    Resize,
    Frame,
    Operator,
}

struct World<'a> {
    rng: &'a mut Rng,
    p: &'a Profile,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    events: std::collections::HashMap<u64, Happen>,
    faults: Vec<(&'static str, f64)>,
}

impl World<'_> {
    fn at(&mut self, time: u64, what: Happen) {
        self.seq += 1;
        self.heap.push(Reverse((time, self.seq)));
        self.events.insert(self.seq, what);
    }

    fn fault(&mut self, name: &'static str) -> bool {
        match self.faults.iter().find(|(n, _)| *n == name) {
            Some((_, rate)) => {
                let rate = *rate;
                self.rng.p(rate)
            }
            None => false,
        }
    }

    fn input(&mut self, time: u64, ev: Ev) {
        if self.fault("event-lost") {
            self.at(time, Happen::Input(Ev::Unknown, vec!["event-lost"]));
            return;
        }
        let mut time = time;
        let mut tags = vec![];
        if self.fault("event-delayed") {
            time += self.rng.range(10, 60) as u64 * 1000;
            tags.push("event-delayed");
        }
        if self.fault("event-duplicated") {
            let mut tags = tags.clone();
            tags.push("event-duplicated");
            self.at(time + 1000, Happen::Input(ev.clone(), tags));
        }
        self.at(time, Happen::Input(ev, tags));
    }

    fn aim(&mut self) -> Ev {
        let n = self.rng.below(64) as u32;
        let (x, y) = match self.rng.below(8) {
            // edges belong to the element on the left and top only
            0 => (0.0, 0.0),
            1 => (1.0, 0.5),
            2 => (0.5, 1.0),
            _ => (self.rng.f() as f32, self.rng.f() as f32),
        };
        Ev::Aim(n, x, y)
    }

    fn gesture(&mut self, t: u64) {
        let pause = |rng: &mut Rng| rng.range(1, 30) as u64 * 1000;
        let name = *self.rng.pick(self.p.gestures);
        let mut t = t;
        let left = true;
        match name {
            "hover" => {
                for _ in 0..self.rng.range(1, 3) {
                    let ev = self.aim();
                    self.input(t, ev);
                    t += pause(self.rng);
                }
            }
            "click" | "double" | "right" => {
                let ev = self.aim();
                self.input(t, ev);
                let button = name != "right";
                for _ in 0..(if name == "double" { 2 } else { 1 }) {
                    t += pause(self.rng);
                    self.input(t, Ev::Down(button));
                    t += pause(self.rng);
                    self.input(t, Ev::Up(button));
                }
            }
            "frame-click" | "frame-right" => {
                // press and release are delivered together
                let button = name == "frame-click";
                let ev = self.aim();
                self.at(t, Happen::Input(ev, vec![]));
                self.at(t, Happen::Input(Ev::Down(button), vec![]));
                self.at(t, Happen::Input(Ev::Up(button), vec![]));
            }
            "press-elsewhere" => {
                let ev = self.aim();
                self.input(t, ev);
                t += pause(self.rng);
                self.input(t, Ev::Down(left));
                for _ in 0..self.rng.range(1, 2) {
                    t += pause(self.rng);
                    let ev = self.aim();
                    self.input(t, ev);
                }
                t += pause(self.rng);
                self.input(t, Ev::Up(left));
            }
            "drag" => {
                let ev = self.aim();
                self.input(t, ev);
                t += pause(self.rng);
                self.input(t, Ev::Down(left));
                for _ in 0..self.rng.range(1, 4) {
                    t += pause(self.rng);
                    let ev = self.aim();
                    self.input(t, ev);
                }
                t += pause(self.rng);
                self.input(t, Ev::Up(left));
            }
            "mixed-buttons" => {
                let ev = self.aim();
                self.input(t, ev);
                for _ in 0..self.rng.range(2, 5) {
                    t += pause(self.rng);
                    let button = self.rng.p(0.5);
                    let ev = match self.rng.below(3) {
                        0 => Ev::Down(button),
                        1 => Ev::Up(button),
                        _ => self.aim(),
                    };
                    self.input(t, ev);
                }
            }
            "type" => {
                for _ in 0..self.rng.range(1, 4) {
                    let n = self.rng.below(KEYS.len()) as u8;
                    match self.rng.below(3) {
                        0 => {
                            self.input(t, Ev::KeyDown(n));
                            t += pause(self.rng);
                            self.input(t, Ev::KeyUp(n));
                        }
                        1 => {
                            let c = *self.rng.pick(&['a', 'Z', '\u{436}', ' ', '\t', '\u{8}', '\r', '\u{0}', '\u{1f600}']);
                            self.input(t, Ev::Char(c));
                        }
                        _ => {
                            self.input(t, Ev::KeyDown(n));
                            let c = *self.rng.pick(&['q', '1']);
                            self.input(t, Ev::Char(c));
                            self.input(t + 1000, Ev::KeyUp(n));
                        }
                    }
                    t += pause(self.rng);
                }
            }
            "wheel" => {
                let ev = self.aim();
                self.input(t, ev);
                for _ in 0..self.rng.range(1, 3) {
                    t += pause(self.rng);
                    let y = *self.rng.pick(&[-1.0, 1.0, 3.0]);
                    self.input(t, Ev::Wheel(0.0, y));
                }
            }
            "leave" => self.input(t, Ev::Move(-5000.0, -5000.0)),
            "wild" => {
                let x = *self.rng.pick(&[1e30, -1e30, f32::MAX, 0.0, 1e-30]);
                let y = *self.rng.pick(&[1e30, -1e30, f32::MIN, 0.5]);
                self.input(t, Ev::Move(x, y));
                self.input(t, Ev::Down(true));
                self.input(t, Ev::Wheel(x, y));
            }
            name => panic!("harness: gesture {name}"),
        }
    }
}

fn period(rng: &mut Rng, every: u64) -> u64 {
    // ms to us, at least 1 ms
    1000 * (1 + (every as f64 * (0.2 + 1.6 * rng.f())) as u64)
}

fn tear(rng: &mut Rng) -> Tear {
    // last parts of files are written last
    let at = if rng.p(0.3) { 1.0 - 0.25 * rng.f() } else { rng.f() };
    let n = if rng.p(0.5) { rng.range(1, 3) } else { rng.range(1, 40) };
    match rng.below(18) {
        16 | 17 => Tear::Hollow(rng.f()),
        12..=14 => Tear::Block(at, rng.range(1, 6)),
        15 => Tear::Misplaced(at, rng.f(), n),
        0..=2 => Tear::Cut(at),
        3 | 4 => Tear::Drop(at, n),
        5..=8 => {
            let n = if rng.p(0.7) { rng.range(1, 2) } else { rng.range(1, 10) };
            let filler = ['\0', ' ', 'x', '{', '<', '"', '}', '>', '/', '0', '9', '%', '-', '.', ';', ':', '#', '*', '@', '|', '(', ',', '\u{e9}'];
            // damage inside of words is parsed
            let word = ['x', 'e', 'm', '0', '9', '-'];
            Tear::Fill(at, n, if rng.p(0.5) { *rng.pick(&word) } else { *rng.pick(&filler) })
        }
        9 => Tear::Mix(at),
        _ => Tear::Twice(at, n),
    }
}

fn world(rng: &mut Rng, p: &Profile, view: usize, used: &[String]) -> Vec<(u64, Step)> {
    let frames = rng.range(p.frames.0, p.frames.1);
    // fault kinds of this run
    let mut faults: Vec<(&'static str, f64)> = vec![];
    if !rng.p(0.15) {
        for name in p.faults {
            if rng.p(0.5) {
                let rate = *rng.pick(&[0.05, 0.15, 0.35]);
                faults.push((name, rate));
            }
        }
    }
    let mut app = initial(rng, &p.data);
    let mut delivered = app.clone();
    let mut bad = false;
    let sizes: [[f32; 2]; 7] = [
        [800.0, 600.0],
        [400.0, 300.0],
        [1920.0, 1080.0],
        [600.0, 800.0],
        [320.0, 200.0],
        [801.0, 599.0],
        [777.0, 600.0],
    ];
    let mut vp = *rng.pick(&sizes);
    let mut w = World {
        rng,
        p,
        seq: 0,
        heap: BinaryHeap::new(),
        events: Default::default(),
        faults,
    };
    let frame_time = *w.rng.pick(&[16_667u64, 16_667, 8_333, 33_333, 100_000]);
    let jitter = *w.rng.pick(&[0u64, 2_000, 15_000]);
    w.at(0, Happen::Frame);
    if p.app_every > 0 {
        let t = period(w.rng, p.app_every);
        w.at(t, Happen::App);
    }
    if p.gesture_every > 0 {
        let t = 20_000 + period(w.rng, p.gesture_every);
        w.at(t, Happen::Gesture);
    }
    if p.resize_every > 0 {
        let t = period(w.rng, p.resize_every);
        w.at(t, Happen::Resize);
    }
    if !p.operator.is_empty() {
        let t = period(w.rng, 150);
        w.at(t, Happen::Operator);
    }
    let mut out = vec![];
    let mut pending: Vec<Ev> = vec![];
    let mut tags: Vec<String> = vec![];
    let mut last = 0u64;
    let mut done = 0;
    while let Some(Reverse((now, seq))) = w.heap.pop() {
        match w.events.remove(&seq).unwrap() {
            Happen::App => {
                for _ in 0..w.rng.range(1, 3) {
                    evolve(w.rng, &mut app, used, &p.data);
                }
                let snapshot = app.clone();
                if w.fault("value-lost") {
                    tags.push("value-lost".to_string());
                } else {
                    let mut fired = vec![];
                    let mut at = now;
                    if w.fault("value-delayed") {
                        at += w.rng.range(10, 150) as u64 * 1000;
                        fired.push("value-delayed");
                    }
                    if w.fault("value-duplicated") {
                        let again = at + w.rng.range(5, 100) as u64 * 1000;
                        w.at(again, Happen::Deliver(snapshot.clone(), false, vec!["value-duplicated"]));
                    }
                    if w.fault("value-corrupted") {
                        let mut damaged = snapshot.clone();
                        for _ in 0..w.rng.range(1, 3) {
                            corrupt(w.rng, &mut damaged, 0);
                        }
                        w.at(at, Happen::Deliver(damaged, true, vec!["value-corrupted"]));
                        // a good one comes later
                        let later = at + w.rng.range(10, 80) as u64 * 1000;
                        w.at(later, Happen::Deliver(snapshot, false, fired));
                    } else {
                        w.at(at, Happen::Deliver(snapshot, false, fired));
                    }
                }
                let t = now + period(w.rng, p.app_every);
                w.at(t, Happen::App);
            }
            Happen::Deliver(value, is_bad, fired) => {
                delivered = value;
                bad = is_bad;
                tags.extend(fired.iter().map(|s| s.to_string()));
            }
            Happen::Gesture => {
                w.gesture(now);
                let t = now + period(w.rng, p.gesture_every);
                w.at(t, Happen::Gesture);
            }
            Happen::Input(ev, fired) => {
                tags.extend(fired.iter().map(|s| s.to_string()));
                if ev != Ev::Unknown || w.rng.p(0.2) {
                    pending.push(ev);
                }
            }
            Happen::Resize => {
                if w.fault("resize-extreme") {
                    vp = *w.rng.pick(&[
                        [0.0, 0.0],
                        [1.0, 1.0],
                        [100000.0, 1.0],
                        [0.0, 700.0],
                        [33.3, 12.7],
                    ]);
                    tags.push("resize-extreme".to_string());
                } else if w.fault("resize-one") || w.rng.p(0.4) {
                    let other = *w.rng.pick(&sizes);
                    let n = w.rng.below(2);
                    vp[n] = other[n];
                } else {
                    vp = *w.rng.pick(&sizes);
                }
                let t = now + period(w.rng, p.resize_every);
                w.at(t, Happen::Resize);
            }
            Happen::Operator => {
                let step = match *w.rng.pick(p.operator) {
                    "check" => Step::Check,
                    "restart" => Step::Restart(view),
                    "torn" => {
                        // one of sources, sometimes both of them
                        let (a, b) = match w.rng.below(8) {
                            0 => (tear(w.rng), tear(w.rng)),
                            1..=3 => (tear(w.rng), Tear::None),
                            _ => (Tear::None, tear(w.rng)),
                        };
                        Step::Torn(view, a, b)
                    }
                    name => panic!("harness: operation {name}"),
                };
                out.push((now, step));
                let t = now + period(w.rng, 150);
                w.at(t, Happen::Operator);
            }
            Happen::Frame => {
                let mut dt = now - last;
                let mut next = now + frame_time;
                if jitter > 0 {
                    next += w.rng.below(jitter as usize) as u64;
                }
                if w.fault("frame-zero") {
                    dt = 0;
                    tags.push("frame-zero".to_string());
                }
                if w.fault("clock-jump") {
                    dt += *w.rng.pick(&[
                        60_000_000,
                        3_600_000_000,
                        86_400_000_000,
                        10_000_000_000_000,
                        1_000_000_000_000_000,
                    ]);
                    tags.push("clock-jump".to_string());
                }
                if w.fault("frame-stall") {
                    next += w.rng.range(200, 3000) as u64 * 1000;
                    tags.push("frame-stall".to_string());
                }
                last = now;
                out.push((
                    now,
                    Step::F(Frame {
                        view,
                        dt,
                        vp,
                        value: delivered.clone(),
                        bad,
                        ev: std::mem::take(&mut pending),
                        faults: std::mem::take(&mut tags),
                    }),
                ));
                done += 1;
                if done >= frames {
                    break;
                }
                w.at(next, Happen::Frame);
            }
        }
    }
    out
}

// ---------------------------------------------------------------- scenarios

fn source(rng: &mut Rng, p: &Profile, whole: bool) -> Source {
    let mut tpl = template(rng, p);
    while conflict(&tpl) {
        tpl = template(rng, p);
    }
    Source {
        tpl,
        css: sheet(rng, p, whole),
        font: if whole { *rng.pick(&[0.5, 1.0]) } else { *rng.pick(&[0.5, 0.6, 1.0]) },
        tr: rng.below(2) as u8,
        style: if rng.p(0.5) { 0 } else { rng.next() },
    }
}

pub fn scenario(prop: &str, base: u64, run: u64) -> Scenario {
    let seed = mix(base, run);
    let mut rng = Rng::new(seed);
    let p = profile(prop, &mut rng);
    let whole = prop == "C23" || prop == "C12" || p.sized || p.grid;
    let views = if prop == "C19" { rng.range(2, 3) } else { 1 };
    let mut sc = Scenario {
        prop: prop.to_string(),
        seed,
        hash: rng.next(),
        ..Default::default()
    };
    let mut steps: Vec<(u64, usize, Step)> = vec![];
    for view in 0..views {
        let source = source(&mut rng, &p, whole);
        let used = used(&source.tpl);
        sc.views.push(source);
        let mut rng = rng.fork();
        for (n, (t, step)) in world(&mut rng, &p, view, &used).into_iter().enumerate() {
            // views run by their own clocks
            steps.push((t + view as u64 * 3_001, n, step));
        }
    }
    steps.sort_by_key(|(t, _, _)| *t);
    sc.steps = steps.into_iter().map(|(_, _, step)| step).collect();
    match prop {
        "C05" => sc.steps.push(Step::Check),
        "C12" => {
            // one update without input, then everything
            if let Some(Step::F(frame)) = sc.steps.first_mut() {
                frame.ev.clear();
            }
            for _ in 0..rng.range(4, 24) {
                sc.parts.push(rng.below(7));
            }
        }
        "C16" => {
            for _ in 0..3 {
                sc.hashes.push(rng.next());
            }
        }
        "C19" => sc.threads = rng.p(0.5),
        _ => {}
    }
    sc
}
