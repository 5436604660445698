//! Reference of transitions and animations: values shown as a function of elapsed time.
//! Positions are intervals, as wide as rounding errors of the time allow.
use crate::casc::{declare_all, lengths, slot, Computed, Unit, Vars};
use crate::scenario::{Decl, Keyframes, Sheet, V};
use crate::sim::Look;
use std::collections::{BTreeMap, HashMap};

/// Displayed value: one number or four of colour.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Px(f64),
    Pct(f64),
    Col([f64; 4]),
    Auto,
    Text(String),
}

impl Val {
    fn parts(&self) -> Vec<f64> {
        match self {
            Val::Px(v) | Val::Pct(v) => vec![*v],
            Val::Col(c) => c.to_vec(),
            Val::Auto | Val::Text(_) => vec![],
        }
    }

    fn same_kind(&self, other: &Val) -> bool {
        std::mem::discriminant(self) == std::mem::discriminant(other)
    }
}

/// Specified value, interpolated with values of the same unit only.
#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    Num(&'static str, f64),
    Col([f64; 4]),
    Auto,
    /// never interpolated
    Word(V),
}

/// Layers after the first one have the name with a number.
fn layered(property: &str, layer: usize) -> String {
    match layer {
        0 => property.to_string(),
        _ => format!("{property}#{layer}"),
    }
}

fn split(property: &str) -> (&str, usize) {
    match property.split_once('#') {
        Some((name, layer)) => (name, layer.parse().unwrap()),
        None => (property, 0),
    }
}

fn quantity(v: &V) -> Option<Q> {
    Some(match v {
        V::Zero => Q::Num("0", 0.0),
        V::Num(v) => Q::Num("n", *v as f64),
        V::Px(v) => Q::Num("px", *v as f64),
        V::Pct(v) => Q::Num("%", *v as f64),
        V::Rem(v) => Q::Num("rem", *v as f64),
        V::Vw(v) => Q::Num("vw", *v as f64),
        V::Vh(v) => Q::Num("vh", *v as f64),
        V::Col([r, g, b, a]) => Q::Col([*r as f64, *g as f64, *b as f64, *a as f64]),
        V::Kw(k) if k == "auto" => Q::Auto,
        V::Kw(k) => match k.as_str() {
            "black" => Q::Col([0.0, 0.0, 0.0, 255.0]),
            "white" => Q::Col([255.0; 4]),
            "red" => Q::Col([255.0, 0.0, 0.0, 255.0]),
            "blue" => Q::Col([0.0, 0.0, 255.0, 255.0]),
            "green" => Q::Col([0.0, 255.0, 0.0, 255.0]),
            "transparent" => Q::Col([0.0; 4]),
            // depends on the parent
            "currentcolor" | "currentColor" => return None,
            _ => Q::Word(v.clone()),
        },
        V::Url(_) | V::S(_) => Q::Word(v.clone()),
        _ => return None,
    })
}

fn show(property: &str, q: &Q, vp: [f32; 2]) -> Option<Val> {
    let v = match q {
        Q::Auto => return Some(Val::Auto),
        Q::Col(c) => return Some(Val::Col(*c)),
        Q::Word(v) => v.clone(),
        Q::Num(unit, v) => {
            let v = *v as f32;
            match *unit {
                "0" => V::Zero,
                "n" => V::Num(v),
                "px" => V::Px(v),
                "%" => V::Pct(v),
                "rem" => V::Rem(v),
                "vw" => V::Vw(v),
                "vh" => V::Vh(v),
                unit => panic!("harness: unit {unit}"),
            }
        }
    };
    let (name, _) = split(property);
    if name.starts_with("background-position") && v == V::Pct(0.0) {
        // initial
        return Some(Val::Px(0.0));
    }
    read(&slot(name, &v, vp)?, name)
}

/// Specified value by the displayed one.
fn shown(property: &str, actual: &Val, unit: &'static str, vp: [f32; 2]) -> Option<Q> {
    Some(match actual {
        Val::Auto => Q::Auto,
        Val::Col(c) => Q::Col(*c),
        Val::Text(_) => return None,
        Val::Px(v) | Val::Pct(v) => {
            let one = show(property, &Q::Num(unit, 1.0), vp)?;
            let factor = one.parts()[0];
            if factor == 0.0 || !one.same_kind(actual) {
                return None;
            } else {
                Q::Num(unit, v / factor)
            }
        }
    })
}

/// Unit of values between two ones, none if they are not interpolated.
fn between(a: &Q, b: &Q) -> Option<&'static str> {
    match (a, b) {
        (Q::Num("0", _), Q::Num(unit, _)) | (Q::Num(unit, _), Q::Num("0", _)) => Some(unit),
        (Q::Num(a, _), Q::Num(b, _)) if a == b => Some(a),
        (Q::Col(_), Q::Col(_)) => Some("color"),
        _ => None,
    }
}

pub fn read(look: &Look, property: &str) -> Option<Val> {
    let col = |c: [u8; 4]| Val::Col([c[0] as f64, c[1] as f64, c[2] as f64, c[3] as f64]);
    let (property, layer) = split(property);
    match property {
        "color" => return Some(col(look.color)),
        "background-color" => {
            return Some(col(look.layers.get(layer).map(|l| l.color).unwrap_or([0; 4])))
        }
        "background-image" => {
            let image = look.layers.get(layer).and_then(|l| l.image.clone());
            return Some(Val::Text(image.unwrap_or_default()));
        }
        "visibility" => return Some(Val::Text(look.visible.to_string())),
        "border-top-color" => return Some(col(look.borders[0].1)),
        "border-right-color" => return Some(col(look.borders[1].1)),
        "border-bottom-color" => return Some(col(look.borders[2].1)),
        "border-left-color" => return Some(col(look.borders[3].1)),
        "background-position-x" => {
            return Some(Val::Px(look.layers.get(layer).map(|l| -l.src[0]).unwrap_or(0.0) as f64))
        }
        "background-position-y" => {
            return Some(Val::Px(look.layers.get(layer).map(|l| -l.src[1]).unwrap_or(0.0) as f64))
        }
        _ => {}
    }
    lengths(look)
        .into_iter()
        .find(|(name, _)| *name == property)
        .and_then(|(_, unit)| match unit {
            Unit::Px(v) => Some(Val::Px(v as f64)),
            Unit::Pct(v) => Some(Val::Pct(v as f64)),
            Unit::Auto => Some(Val::Auto),
        })
}

/// Acceptable values: one of ranges.
#[derive(Clone, Debug)]
pub struct Want {
    pub property: String,
    ranges: Vec<(Val, Val)>,
    pub why: String,
    pub moving: bool,
}

impl Want {
    fn exact(property: &str, v: &Val, why: &str) -> Want {
        Want {
            property: property.to_string(),
            ranges: vec![(v.clone(), v.clone())],
            why: why.to_string(),
            moving: false,
        }
    }

    pub fn check(&self, actual: &Val) -> Result<(), String> {
        if self.ranges.iter().any(|(lo, hi)| self.within(actual, lo, hi)) {
            return Ok(());
        }
        Err(format!("{} is {actual:?}, expected {:?} ({})", self.property, self.ranges, self.why))
    }

    fn within(&self, actual: &Val, lo: &Val, hi: &Val) -> bool {
        let zero = |v: &Val| matches!(v, Val::Px(v) | Val::Pct(v) if v.abs() < 1e-3);
        if !actual.same_kind(lo) {
            // zero has no unit
            return zero(actual) && (zero(lo) || zero(hi));
        }
        if let Val::Text(_) = actual {
            return actual == lo || actual == hi;
        }
        let color = matches!(actual, Val::Col(_));
        for ((v, a), b) in actual.parts().iter().zip(lo.parts()).zip(hi.parts()) {
            let (lo, hi) = (a.min(b), a.max(b));
            let slack = match (color, self.moving) {
                (true, false) => 0.0,
                (true, true) => 1.01,
                (false, false) => 1e-4 * (1.0 + v.abs()),
                (false, true) => 1e-3 * (1.0 + v.abs()),
            };
            if !(*v >= lo - slack && *v <= hi + slack) {
                return false;
            }
        }
        true
    }
}

/// Piecewise linear function of position 0..1.
struct Track {
    property: String,
    vp: [f32; 2],
    points: Vec<(f64, Q)>,
}

impl Track {
    fn mix(&self, a: &Q, b: &Q, t: f64) -> Q {
        let unit = between(a, b).unwrap_or("0");
        match (a, b) {
            (Q::Num(_, a), Q::Num(_, b)) => Q::Num(unit, a + (b - a) * t),
            (Q::Col(a), Q::Col(b)) => Q::Col(std::array::from_fn(|i| a[i] + (b[i] - a[i]) * t)),
            (a, _) => a.clone(),
        }
    }

    /// Values shown while the position is within the intervals.
    fn ranges(&self, intervals: &[(f64, f64)]) -> Option<Vec<(Val, Val)>> {
        let mut out = vec![];
        let show = |q: &Q| show(&self.property, q, self.vp);
        for (a, b) in intervals {
            let (a, b) = (a.clamp(0.0, 1.0), b.clamp(0.0, 1.0));
            for pair in self.points.windows(2) {
                let (x0, q0) = &pair[0];
                let (x1, q1) = &pair[1];
                if a > *x1 || b < *x0 || x1 <= x0 {
                    continue;
                }
                let t0 = (a.max(*x0) - x0) / (x1 - x0);
                let t1 = (b.min(*x1) - x0) / (x1 - x0);
                if between(q0, q1).is_some() {
                    out.push((show(&self.mix(q0, q1, t0))?, show(&self.mix(q0, q1, t1))?));
                } else {
                    // values of different units are not interpolated
                    let (q0, q1) = (show(q0)?, show(q1)?);
                    if t0 < 0.5 + 1e-3 {
                        out.push((q0.clone(), q0));
                    }
                    if t1 > 0.5 - 1e-3 {
                        out.push((q1.clone(), q1));
                    }
                }
            }
        }
        Some(out)
    }
}

#[derive(Clone, Debug, Default)]
struct Settings {
    duration: f64,
    delay: f64,
    /// infinite if none
    iterations: Option<f64>,
    paused: bool,
}

fn get<'c>(computed: &'c Computed, name: &str, index: usize) -> Option<&'c V> {
    computed.get(&(name.to_string(), index)).and_then(|v| v.as_ref().ok())
}

fn settings(computed: &Computed, kind: &str, index: usize) -> Settings {
    let time = |name: &str| match get(computed, &format!("{kind}-{name}"), index) {
        Some(V::T(v)) => *v as f64,
        _ => 0.0,
    };
    Settings {
        duration: time("duration"),
        delay: time("delay"),
        iterations: match get(computed, &format!("{kind}-iteration-count"), index) {
            Some(V::Kw(k)) if k == "infinite" => None,
            Some(V::Num(v)) => Some(*v as f64),
            _ => Some(1.0),
        },
        paused: match get(computed, &format!("{kind}-play-state"), index) {
            Some(V::Kw(k)) => k == "paused",
            _ => false,
        },
    }
}

struct Transition {
    property: String,
    settings: Settings,
    /// of each layer
    range: Option<Vec<(Q, Q)>>,
    elapsed: f64,
    error: f64,
    /// the value shown is not known
    lost: bool,
}

impl Transition {
    fn layers(&self) -> Vec<String> {
        let count = self.range.as_ref().map(|range| range.len()).unwrap_or(1);
        (0..count).map(|layer| layered(&self.property, layer)).collect()
    }
}

struct Animation {
    name: String,
    settings: Settings,
    elapsed: f64,
    error: f64,
}

#[derive(Default)]
pub struct NodeTime {
    transitions: BTreeMap<usize, Transition>,
    animations: BTreeMap<usize, Animation>,
}

const EPS: f64 = 2.5e-7;
const LAYERS: usize = 4;

pub struct Probes(pub BTreeMap<&'static str, u64>);

impl Probes {
    pub fn add(&mut self, name: &'static str) {
        *self.0.entry(name).or_default() += 1;
    }
}

impl NodeTime {
    /// Values expected after an update, with dt passed since the last one.
    pub fn frame(
        &mut self,
        dt: f64,
        computed: &Computed,
        vars: &Vars,
        sheet: &Sheet,
        vp: [f32; 2],
        actual: &Look,
        probes: &mut Probes,
    ) -> Vec<Want> {
        let mut wants: BTreeMap<String, Option<Want>> = BTreeMap::new();
        // animations
        for index in 0..LAYERS {
            let name = match get(computed, "animation-name", index) {
                Some(V::Kw(name)) => Some(name.clone()),
                _ => None,
            };
            let keyframes = name
                .as_ref()
                .and_then(|name| sheet.keyframes.iter().rev().find(|k| &k.name == name));
            let state = self.animations.get_mut(&index);
            match (state, name, keyframes) {
                (Some(state), Some(name), Some(keyframes)) if state.name == name => {
                    let s = state.settings.clone();
                    state.settings = settings(computed, "animation", index);
                    if s.duration <= 0.0 {
                        continue;
                    }
                    if !s.paused {
                        state.elapsed += dt;
                        let scale = match s.iterations {
                            None => s.delay + s.duration + dt,
                            Some(_) => state.elapsed + dt,
                        };
                        state.error += EPS * scale;
                        if dt > s.duration * 3.0 {
                            probes.add("stall longer than animation");
                        }
                    } else {
                        probes.add("paused");
                    }
                    let intervals =
                        match position(state.elapsed - s.delay, state.error, &s, probes) {
                            Position::Before => continue,
                            Position::Unknown => {
                                for (_, property) in properties(keyframes) {
                                    wants.insert(property, None);
                                }
                                continue;
                            }
                            Position::At(intervals) => intervals,
                        };
                    for (_, property) in properties(keyframes) {
                        let want = track(keyframes, &property, computed, vars, vp)
                            .and_then(|track| track.ranges(&intervals))
                            .map(|ranges| Want {
                                property: property.clone(),
                                ranges,
                                why: format!(
                                    "animation {} after {:.6} s",
                                    keyframes.name, state.elapsed
                                ),
                                moving: true,
                            });
                        wants.insert(property, want);
                    }
                }
                (state, name, keyframes) => {
                    if let Some(state) = state {
                        for k in sheet.keyframes.iter().filter(|k| k.name == state.name) {
                            probes.add("animation stopped");
                            // its effect must disappear
                            for (_, property) in properties(k) {
                                wants.entry(property).or_insert_with(|| None);
                            }
                        }
                        for (property, want) in wants.iter_mut() {
                            if want.is_none() {
                                *want = base_or_initial(computed, property)
                                    .and_then(|q| show(property, &q, vp))
                                    .map(|v| Want::exact(property, &v, "animation stopped"));
                            }
                        }
                    }
                    self.animations.remove(&index);
                    if let (Some(name), Some(_)) = (name, keyframes) {
                        probes.add("animation started");
                        self.animations.insert(
                            index,
                            Animation {
                                name,
                                settings: settings(computed, "animation", index),
                                elapsed: 0.0,
                                error: 0.0,
                            },
                        );
                    }
                }
            }
        }
        // transitions
        for index in 0..LAYERS {
            let property = match get(computed, "transition-property", index) {
                Some(V::Kw(name)) => name.clone(),
                _ => {
                    if let Some(old) = self.transitions.remove(&index) {
                        for property in old.layers() {
                            let v = base_or_initial(computed, &property);
                            if let Some(v) = v.and_then(|q| show(&property, &q, vp)) {
                                let want = Want::exact(&property, &v, "transition is not specified");
                                wants.insert(property, Some(want));
                            }
                        }
                    }
                    continue;
                }
            };
            let now = settings(computed, "transition", index);
            let target = bases(computed, &property);
            let exact = |layer: usize, q: &Q, why: &str| {
                let property = layered(&property, layer);
                show(&property, q, vp).map(|v| Want::exact(&property, &v, why))
            };
            let known = self
                .transitions
                .get(&index)
                .map(|state| state.property == property)
                .unwrap_or(false);
            let still = |values: &[Q]| values.iter().map(|v| (v.clone(), v.clone())).collect::<Vec<_>>();
            if !known {
                probes.add("transition specified");
                for (layer, target) in target.iter().flatten().enumerate() {
                    let want = exact(layer, target, "transition just specified");
                    wants.insert(layered(&property, layer), want);
                }
                self.transitions.insert(
                    index,
                    Transition {
                        property: property.clone(),
                        settings: now,
                        range: target.as_deref().map(still),
                        elapsed: 0.0,
                        error: 0.0,
                        lost: false,
                    },
                );
                continue;
            }
            let state = self.transitions.get_mut(&index).unwrap();
            let s = std::mem::replace(&mut state.settings, now);
            let target = match target {
                Some(target) => target,
                None => {
                    probes.add("transitioned property unset");
                    state.range = None;
                    continue;
                }
            };
            if state.lost {
                for layer in 0..target.len() {
                    wants.insert(layered(&property, layer), None);
                }
                continue;
            }
            let range = state.range.clone().filter(|range| range.len() == target.len());
            if s.duration <= 0.0 || range.is_none() {
                for (layer, target) in target.iter().enumerate() {
                    let want = exact(layer, target, "no duration or previous value");
                    wants.insert(layered(&property, layer), want);
                }
                state.range = Some(still(&target));
                state.elapsed = 0.0;
                state.error = 0.0;
                continue;
            }
            let range = range.unwrap();
            if range.len() > 1 {
                probes.add("transition of layers");
            }
            state.elapsed += dt;
            state.error += EPS * (state.elapsed + dt);
            let t = state.elapsed - s.delay;
            let over = t - state.error >= s.duration;
            let delayed = t + state.error <= 0.0;
            let retargeted = range.iter().zip(&target).any(|((_, to), target)| to != target);
            let mut current = Some(vec![]);
            for (layer, (from, to)) in range.into_iter().enumerate() {
                let property = layered(&property, layer);
                let finished = over || from == to;
                let want = if finished {
                    // equal ends are interpolated as well, with the precision of any other ones
                    exact(layer, &to, "transition finished")
                        .map(|want| Want { moving: !over || from == to, ..want })
                } else if delayed {
                    probes.add("transition delayed");
                    exact(layer, &from, "transition delayed")
                } else {
                    if between(&from, &to).is_some() {
                        probes.add("transition in progress");
                    } else {
                        probes.add("transition between units");
                    }
                    let a = ((t - state.error) / s.duration).clamp(0.0, 1.0);
                    let b = ((t + state.error) / s.duration).clamp(0.0, 1.0);
                    let track = Track {
                        property: property.clone(),
                        vp,
                        points: vec![(0.0, from.clone()), (1.0, to.clone())],
                    };
                    track.ranges(&[(a, b)]).map(|ranges| Want {
                        property: property.clone(),
                        ranges,
                        why: format!(
                            "transition from {from:?} to {to:?} after {:.6} s of {} s, delay {} s",
                            state.elapsed, s.duration, s.delay
                        ),
                        moving: true,
                    })
                };
                wants.insert(property.clone(), want);
                if !retargeted {
                    continue;
                }
                // continues from the value shown
                let value = if finished && (from != to || !matches!(to, Q::Col(_))) {
                    probes.add("transition started");
                    Some(to)
                } else if delayed {
                    probes.add("transition retargeted while delayed");
                    Some(from)
                } else {
                    probes.add("transition retargeted midway");
                    match between(&from, &to) {
                        Some(unit) => read(actual, &property).and_then(|v| match v {
                            Val::Px(v) | Val::Pct(v) if v == 0.0 => match (&from, &to) {
                                // at the very beginning
                                (Q::Num(_, a), Q::Num(_, b)) if *a == 0.0 && *b != 0.0 => {
                                    Some(from.clone())
                                }
                                // unit of zero is not known
                                _ => None,
                            },
                            v => shown(&property, &v, unit, vp),
                        }),
                        // one of both
                        None => match read(actual, &property) {
                            v if v.is_some() && v == show(&property, &from, vp) => Some(from),
                            v if v.is_some() && v == show(&property, &to, vp) => Some(to),
                            _ => None,
                        },
                    }
                };
                current = match (current, value) {
                    (Some(mut all), Some(value)) => {
                        all.push(value);
                        Some(all)
                    }
                    _ => None,
                };
            }
            if retargeted {
                state.range = current.map(|current| current.into_iter().zip(target).collect());
                state.lost = state.range.is_none();
                state.elapsed = 0.0;
                state.error = 0.0;
            }
        }
        wants.into_values().flatten().collect()
    }
}

/// Value of property declared by the current rules.
fn base(computed: &Computed, property: &str) -> Option<Q> {
    let (name, layer) = split(property);
    get(computed, name, layer).and_then(quantity)
}

/// Values of all layers.
fn bases(computed: &Computed, property: &str) -> Option<Vec<Q>> {
    let count = (0..).take_while(|i| computed.contains_key(&(property.to_string(), *i))).count();
    if count == 0 {
        return None;
    }
    (0..count).map(|i| base(computed, &layered(property, i))).collect()
}

fn base_or_initial(computed: &Computed, property: &str) -> Option<Q> {
    let (name, layer) = split(property);
    if computed.contains_key(&(name.to_string(), layer)) {
        return base(computed, property);
    }
    match name {
        "visibility" => Some(Q::Word(V::Kw("visible".to_string()))),
        "background-image" => Some(Q::Word(V::Kw("none".to_string()))),
        "background-position-x" | "background-position-y" => Some(Q::Num("%", 0.0)),
        "width" | "height" | "left" | "top" | "right" | "bottom" => Some(Q::Auto),
        "opacity" => Some(Q::Num("n", 1.0)),
        "background-color" => Some(Q::Col([0.0; 4])),
        n if n.starts_with("padding") || n.starts_with("margin") || n == "flex-grow" => {
            Some(Q::Num("0", 0.0))
        }
        _ => None,
    }
}

fn keyframe(decls: &[Decl], vars: &Vars) -> Computed {
    let mut computed = Computed::new();
    declare_all(decls, &mut vars.clone(), &mut computed);
    computed
}

fn properties(keyframes: &Keyframes) -> Vec<(u32, String)> {
    let mut out: Vec<(u32, String)> = vec![];
    for (step, decls) in &keyframes.frames {
        for (name, layer) in keyframe(decls, &Vars::new()).into_keys() {
            let name = layered(&name, layer);
            if !out.iter().any(|(_, n)| n == &name) {
                out.push((*step, name));
            }
        }
    }
    out
}

fn track(
    keyframes: &Keyframes,
    property: &str,
    computed: &Computed,
    vars: &Vars,
    vp: [f32; 2],
) -> Option<Track> {
    let mut points: BTreeMap<u32, Q> = BTreeMap::new();
    for (step, decls) in &keyframes.frames {
        let computed = keyframe(decls, vars);
        let (name, layer) = split(property);
        if computed.contains_key(&(name.to_string(), layer)) {
            points.insert(*step, base(&computed, property)?);
        }
    }
    for edge in [0, 100] {
        if !points.contains_key(&edge) {
            points.insert(edge, base_or_initial(computed, property)?);
        }
    }
    Some(Track {
        property: property.to_string(),
        vp,
        points: points.into_iter().map(|(x, v)| (x as f64 / 100.0, v)).collect(),
    })
}

enum Position {
    Before,
    Unknown,
    At(Vec<(f64, f64)>),
}

/// Frames are chosen with precision of one percent.
const STEP: f64 = 0.0101;

fn position(t: f64, error: f64, s: &Settings, probes: &mut Probes) -> Position {
    if t + error < 0.0 {
        probes.add("animation delayed");
        return Position::Before;
    }
    if t - error < 0.0 && s.delay > 0.0 {
        return Position::Unknown;
    }
    if let Some(iterations) = s.iterations {
        let end = iterations * s.duration;
        if t - error >= end {
            probes.add("animation finished");
            let rest = iterations.fract();
            let x = if rest == 0.0 { 1.0 } else { rest };
            return Position::At(vec![if rest == 0.0 { (x, x) } else { (x - STEP, x) }]);
        }
    }
    let delta = error / s.duration;
    if 2.0 * delta + STEP >= 1.0 {
        return Position::At(vec![(0.0, 1.0)]);
    }
    if t > s.duration {
        probes.add("animation repeated");
    }
    let x = (t / s.duration).fract();
    let (a, b) = (x - STEP - delta, x + delta);
    let mut out = vec![];
    if a < 0.0 {
        out.push((0.0, b.min(1.0)));
        if t > s.duration / 2.0 {
            out.push((1.0 + a, 1.0));
        }
    } else if b >= 1.0 {
        out.push((a, 1.0));
        out.push((0.0, b - 1.0));
    } else {
        out.push((a, b));
    }
    Position::At(out)
}

/// All nodes of a view.
#[derive(Default)]
pub struct Times {
    pub nodes: HashMap<u64, NodeTime>,
}
