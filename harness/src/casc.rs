//! Reference of the cascade: the look of an element computed from scratch for the shown tree.
use crate::scenario::*;
use crate::sim::{El, Layer, Len, Look, Snap};
use bumaga::{FontFace, Pointer, TextAlign};
use std::collections::{BTreeMap, HashMap};
use taffy::{Dimension, LengthPercentage, LengthPercentageAuto, Overflow};

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct State {
    pub hover: bool,
    pub active: bool,
    pub focus: bool,
}

/// Computed value, Err if it can not be computed.
pub type Cv = Result<V, ()>;

pub type Computed = BTreeMap<(String, usize), Cv>;

pub struct Ctx<'a> {
    pub sheet: &'a Sheet,
    pub vp: [f32; 2],
    pub states: &'a HashMap<u64, State>,
}

pub type Vars = HashMap<String, Vec<V>>;

#[derive(Clone)]
struct Parent {
    color: [u8; 4],
    font: FontFace,
    pointer_events: bool,
}

pub fn default_look() -> Look {
    Look {
        color: [0, 0, 0, 255],
        font: FontFace {
            family: "system-ui".to_string(),
            size: 16.0,
            style: "normal".to_string(),
            weight: 400,
            line_height: 1.0,
            align: TextAlign::Start,
        },
        layers: vec![],
        borders: [(0.0, [0; 4]); 4],
        radius: [Len::Px(0.0), Len::Px(0.0), Len::Px(0.0), Len::Px(0.0)],
        opacity: 1.0,
        pointer_events: true,
        cursor: Pointer::Auto,
        visible: true,
        layout: default_layout(),
    }
}

fn default_layout() -> taffy::Style {
    taffy::Style {
        display: taffy::Display::Block,
        scrollbar_width: 0.0,
        position: taffy::Position::Relative,
        inset: taffy::Rect::auto(),
        margin: taffy::Rect::zero(),
        padding: taffy::Rect::zero(),
        border: taffy::Rect::zero(),
        size: taffy::Size::auto(),
        min_size: taffy::Size::auto(),
        max_size: taffy::Size::auto(),
        gap: taffy::Size::zero(),
        flex_grow: 0.0,
        flex_shrink: 1.0,
        flex_basis: Dimension::Auto,
        ..Default::default()
    }
}

// ---------------------------------------------------------------- selectors

/// Elements the selectors can see: the shown tree and its root.
pub struct Tree<'a> {
    pub snap: &'a Snap,
}

impl Tree<'_> {
    fn simple(&self, simple: &Simple, at: Option<usize>, states: &HashMap<u64, State>) -> bool {
        let e: &El = match at {
            Some(at) => &self.snap.0[at],
            // element above the body, it has neither tag nor attributes
            None => return matches!(simple, Simple::All),
        };
        match simple {
            Simple::All => true,
            Simple::Type(tag) => e.text.is_none() && &e.tag == tag,
            Simple::Class(name) => e
                .attrs
                .get("class")
                .map(|classes| classes.split_ascii_whitespace().any(|c| c == name))
                .unwrap_or(false),
            Simple::Id(id) => e.attrs.get("id") == Some(id),
            Simple::Attr(name, op, value) => match e.attrs.get(name) {
                None => false,
                Some(actual) => match op.as_str() {
                    "" => true,
                    "=" => actual == value,
                    "~=" => actual.split_ascii_whitespace().any(|word| word == value),
                    "|=" => actual == value || actual.starts_with(&format!("{value}-")),
                    "^=" => actual.starts_with(value.as_str()),
                    "$=" => actual.ends_with(value.as_str()),
                    "*=" => actual.contains(value.as_str()),
                    op => panic!("harness: operator {op}"),
                },
            },
            Simple::Pseudo(name) => {
                let state = states.get(&e.node).copied().unwrap_or_default();
                match name.as_str() {
                    "hover" => state.hover,
                    "active" => state.active,
                    "focus" => state.focus,
                    name => panic!("harness: pseudo class {name}"),
                }
            }
        }
    }

    pub fn matches(&self, complex: &Complex, at: usize, states: &HashMap<u64, State>) -> bool {
        let mut at = Some(at);
        for i in (0..complex.0.len()).rev() {
            let (combinator, compound) = &complex.0[i];
            if !compound.iter().all(|simple| self.simple(simple, at, states)) {
                return false;
            }
            if i == 0 {
                break;
            }
            let e = match at {
                Some(at) => &self.snap.0[at],
                None => return false,
            };
            match combinator {
                '>' => at = e.parent,
                '+' => {
                    let parent = match e.parent {
                        Some(parent) => &self.snap.0[parent],
                        None => return false,
                    };
                    let index = parent.kids.iter().position(|kid| Some(*kid) == at).unwrap();
                    if index == 0 {
                        return false;
                    }
                    at = Some(parent.kids[index - 1]);
                }
                c => panic!("harness: combinator {c}"),
            }
        }
        true
    }
}

// ---------------------------------------------------------------- declarations

pub fn substitute(values: &[V], vars: &Vars, depth: usize) -> Vec<Cv> {
    let mut out = vec![];
    for value in values {
        match value {
            V::Var(name) => match vars.get(name) {
                Some(values) if depth < 16 => out.extend(substitute(values, vars, depth + 1)),
                _ => out.push(Err(())),
            },
            V::Ms(v) => out.push(Ok(V::T(v / 1000.0))),
            V::Fn(name, args) => out.push(function(name, &substitute(args, vars, depth + 1))),
            value => out.push(Ok(value.clone())),
        }
    }
    out
}

fn function(name: &str, args: &[Cv]) -> Cv {
    let part = |i: usize, scale: f32| match &args[i] {
        Ok(V::Pct(v)) => (v / 100.0 * 255.0) as u8,
        Ok(V::Num(v)) => (v * scale) as u8,
        _ => 0,
    };
    match (name, args.len()) {
        ("rgb", 3) => Ok(V::Col([part(0, 1.0), part(1, 1.0), part(2, 1.0), 255])),
        ("rgba", 4) => Ok(V::Col([part(0, 1.0), part(1, 1.0), part(2, 1.0), part(3, 255.0)])),
        _ => Err(()),
    }
}

pub fn declare(name: &str, index: usize, values: &[Cv], out: &mut Computed) {
    let mut set = |name: &str, value: &Cv| {
        if index == 0 {
            // the list is replaced
            out.retain(|(other, _), _| other != name);
        }
        out.insert((name.to_string(), index), value.clone());
    };
    let n = values.len();
    // values of top, right, bottom, left
    let sides = |n: usize| match n {
        1 => Some([0, 0, 0, 0]),
        2 => Some([0, 1, 0, 1]),
        3 => Some([0, 1, 2, 1]),
        4 => Some([0, 1, 2, 3]),
        _ => None,
    };
    const SIDES: [&str; 4] = ["top", "right", "bottom", "left"];
    match name {
        "background" => {
            if n == 1 {
                set("background-image", &Ok(V::Kw("none".to_string())));
                set("background-color", &values[0]);
            }
        }
        "background-position" => {
            if n == 1 || n == 2 {
                set("background-position-x", &values[0]);
                set("background-position-y", &values[n - 1]);
            }
        }
        "border" => {
            if n == 3 {
                for side in SIDES {
                    set(&format!("border-{side}-width"), &values[0]);
                    set(&format!("border-{side}-color"), &values[2]);
                }
            } else if values == [Ok(V::Kw("none".to_string()))] {
                for side in SIDES {
                    set(&format!("border-{side}-width"), &Ok(V::Zero));
                    set(&format!("border-{side}-color"), &Ok(V::Kw("currentcolor".to_string())));
                }
            }
        }
        "border-top" | "border-right" | "border-bottom" | "border-left" => {
            if n == 3 {
                set(&format!("{name}-width"), &values[0]);
                set(&format!("{name}-color"), &values[2]);
            }
        }
        "border-width" | "border-color" => {
            if let Some(sides) = sides(n) {
                let kind = &name["border-".len()..];
                for (side, i) in SIDES.iter().zip(sides) {
                    set(&format!("border-{side}-{kind}"), &values[i]);
                }
            }
        }
        "border-radius" => {
            if let Some(sides) = sides(n) {
                for (corner, i) in ["top-left", "top-right", "bottom-right", "bottom-left"]
                    .iter()
                    .zip(sides)
                {
                    set(&format!("border-{corner}-radius"), &values[i]);
                }
            }
        }
        "margin" | "padding" => {
            if let Some(sides) = sides(n) {
                for (side, i) in SIDES.iter().zip(sides) {
                    set(&format!("{name}-{side}"), &values[i]);
                }
            }
        }
        "inset" => {
            if n == 1 || n == 4 {
                for (side, i) in SIDES.iter().zip(sides(n).unwrap()) {
                    set(side, &values[i]);
                }
            }
        }
        "overflow" => {
            if n == 1 || n == 2 {
                set("overflow-x", &values[0]);
                set("overflow-y", &values[n - 1]);
            }
        }
        "gap" => {
            if n == 1 {
                set("row-gap", &values[0]);
                set("column-gap", &values[0]);
            }
        }
        "transition" => {
            for (i, kind) in ["property", "duration", "timing-function", "delay"].iter().enumerate() {
                if i < n && n >= 2 {
                    set(&format!("transition-{kind}"), &values[i]);
                }
            }
        }
        "animation" => {
            let kinds: &[&str] = match (n, values.get(2)) {
                (4, Some(Ok(V::T(_)))) => &["duration", "timing-function", "delay", "name"],
                (4, _) => &["duration", "timing-function", "iteration-count", "name"],
                (3, _) => &["duration", "timing-function", "name"],
                (2, _) => &["duration", "name"],
                _ => &[],
            };
            for (i, kind) in kinds.iter().enumerate() {
                set(&format!("animation-{kind}"), &values[i]);
            }
        }
        name => {
            if n == 1 {
                set(name, &values[0]);
            }
        }
    }
}

pub fn declare_all(decls: &[Decl], vars: &mut Vars, out: &mut Computed) {
    for Decl(name, layers) in decls {
        if name.starts_with("--") {
            vars.insert(name.clone(), layers[0].clone());
        } else {
            for (index, values) in layers.iter().enumerate() {
                declare(name, index, &substitute(values, vars, 0), out);
            }
        }
    }
}

/// Declarations of style attribute, the first incorrect one ends the list.
pub fn inline(style: &str) -> Vec<Decl> {
    let mut out = vec![];
    for part in style.split_inclusive(';') {
        let part = match part.strip_suffix(';') {
            Some(part) => part.trim(),
            None => break,
        };
        let (name, values) = match part.split_once(':') {
            Some((name, values)) => (name.trim(), values.trim()),
            None => break,
        };
        let mut list = vec![];
        for value in values.split(' ') {
            match inline_value(value) {
                Some(value) => list.push(value),
                None => return out,
            }
        }
        out.push(Decl(name.to_string(), vec![list]));
    }
    out
}

fn inline_value(value: &str) -> Option<V> {
    if let Some(hex) = value.strip_prefix('#') {
        let byte = |i: usize| u8::from_str_radix(hex.get(i..i + 2)?, 16).ok();
        return Some(V::Col([byte(0)?, byte(2)?, byte(4)?, 255]));
    }
    if let Some(name) = value.strip_prefix("var(").and_then(|v| v.strip_suffix(')')) {
        return Some(V::Var(name.to_string()));
    }
    if value.starts_with(|c: char| c.is_ascii_alphabetic()) {
        return Some(V::Kw(value.to_string()));
    }
    let split =
        value.find(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-')).unwrap_or(value.len());
    let number: f32 = value[..split].parse().ok()?;
    match &value[split..] {
        "px" => Some(V::Px(number)),
        "%" => Some(V::Pct(number)),
        "vw" => Some(V::Vw(number)),
        "vh" => Some(V::Vh(number)),
        "vmin" => Some(V::Vmin(number)),
        "vmax" => Some(V::Vmax(number)),
        "rem" => Some(V::Rem(number)),
        "em" => Some(V::Em(number)),
        "" if value == "0" => Some(V::Zero),
        "" => Some(V::Num(number)),
        _ => None,
    }
}

// ---------------------------------------------------------------- application

struct Apply<'a> {
    vp: [f32; 2],
    parent: &'a Parent,
}

impl Apply<'_> {
    fn px(&self, value: &V) -> Option<f32> {
        let [w, h] = self.vp;
        Some(match value {
            V::Zero => 0.0,
            V::Px(v) => *v,
            V::Em(v) => self.parent.font.size * v,
            V::Rem(v) => 16.0 * v,
            V::Vw(v) => w * v / 100.0,
            V::Vh(v) => h * v / 100.0,
            V::Vmin(v) => w.min(h) * v / 100.0,
            V::Vmax(v) => w.max(h) * v / 100.0,
            _ => return None,
        })
    }

    fn px_or_number(&self, value: &V) -> Option<f32> {
        match value {
            V::Num(v) => Some(*v),
            value => self.px(value),
        }
    }

    fn dim(&self, value: &V) -> Option<Dimension> {
        match value {
            V::Pct(v) => Some(Dimension::Percent(v / 100.0)),
            V::Kw(k) if k == "auto" => Some(Dimension::Auto),
            value => self.px(value).map(Dimension::Length),
        }
    }

    fn lp(&self, value: &V) -> Option<LengthPercentage> {
        match value {
            V::Pct(v) => Some(LengthPercentage::Percent(v / 100.0)),
            value => self.px(value).map(LengthPercentage::Length),
        }
    }

    fn lpa(&self, value: &V) -> Option<LengthPercentageAuto> {
        match value {
            V::Pct(v) => Some(LengthPercentageAuto::Percent(v / 100.0)),
            V::Kw(k) if k == "auto" => Some(LengthPercentageAuto::Auto),
            value => self.px(value).map(LengthPercentageAuto::Length),
        }
    }

    fn color(&self, value: &V) -> Option<[u8; 4]> {
        Some(match value {
            V::Col(c) => *c,
            V::Rgb(r, g, b) => [*r, *g, *b, 255],
            V::Kw(k) => match k.as_str() {
                "black" => [0, 0, 0, 255],
                "white" => [255, 255, 255, 255],
                "red" => [255, 0, 0, 255],
                "blue" => [0, 0, 255, 255],
                "green" => [0, 255, 0, 255],
                "transparent" => [0, 0, 0, 0],
                "currentcolor" | "currentColor" => self.parent.color,
                _ => return None,
            },
            _ => return None,
        })
    }

    fn number(&self, value: &V) -> Option<f32> {
        match value {
            V::Zero => Some(0.0),
            V::Num(v) => Some(*v),
            _ => None,
        }
    }

    fn one(&self, name: &str, index: usize, value: &V, look: &mut Look) -> Option<()> {
        let kw = match value {
            V::Kw(k) => k.as_str(),
            _ => "",
        };
        let l = &mut look.layout;
        fn layer(look: &mut Look, index: usize) -> &mut Layer {
            while look.layers.len() <= index {
                look.layers.push(Layer {
                    image: None,
                    is_src: false,
                    color: [0; 4],
                    src: [0.0; 2],
                });
            }
            &mut look.layers[index]
        }
        let side = |name: &str| match name {
            n if n.contains("-top") => 0,
            n if n.contains("-right") => 1,
            n if n.contains("-bottom") => 2,
            _ => 3,
        };
        match name {
            "opacity" => {
                look.opacity = match value {
                    V::Pct(v) => v / 100.0,
                    value => self.number(value)?,
                }
            }
            "background-color" => layer(look, index).color = self.color(value)?,
            "background-image" => match value {
                V::S(s) | V::Url(s) => layer(look, index).image = Some(s.clone()),
                V::Kw(k) if k == "none" => layer(look, index).image = None,
                _ => return None,
            },
            "background-position-x" => {
                layer(look, index).src[0] = -self.px_or_number(value)?
            }
            "background-position-y" => {
                layer(look, index).src[1] = -self.px_or_number(value)?
            }
            "color" => look.color = self.color(value)?,
            "font-size" => {
                look.font.size = match value {
                    V::Pct(v) => v / 100.0 * self.parent.font.size,
                    value => self.px_or_number(value)?,
                }
            }
            "font-weight" => {
                look.font.weight = match value {
                    V::Num(v) if *v >= 1.0 && *v <= 1000.0 => *v as u16,
                    V::Kw(k) if k == "normal" => 400,
                    V::Kw(k) if k == "bold" => 700,
                    _ => return None,
                }
            }
            "font-family" => match value {
                V::S(s) => look.font.family = s.clone(),
                _ => return None,
            },
            "font-style" => match kw {
                "normal" | "italic" | "oblique" => look.font.style = kw.to_string(),
                _ => return None,
            },
            "text-align" => {
                look.font.align = match kw {
                    "start" => TextAlign::Start,
                    "end" => TextAlign::End,
                    "left" => TextAlign::Left,
                    "right" => TextAlign::Right,
                    "center" => TextAlign::Center,
                    "justify" => TextAlign::Justify,
                    _ => return None,
                }
            }
            "pointer-events" => {
                look.pointer_events = match kw {
                    "auto" => true,
                    "none" => false,
                    _ => return None,
                }
            }
            "cursor" => {
                look.cursor = match kw {
                    "auto" => Pointer::Auto,
                    "default" => Pointer::Default,
                    "pointer" => Pointer::Pointer,
                    "help" => Pointer::Help,
                    "wait" => Pointer::Wait,
                    "text" => Pointer::Text,
                    "context-menu" => Pointer::ContextMenu,
                    "progress" => Pointer::Progress,
                    "not-allowed" => Pointer::NotAllowed,
                    _ => return None,
                }
            }
            "visibility" => {
                look.visible = match kw {
                    "visible" => true,
                    "hidden" => false,
                    _ => return None,
                }
            }
            "border-top-width" | "border-right-width" | "border-bottom-width"
            | "border-left-width" => {
                let width = self.px_or_number(value)?;
                look.borders[side(name)].0 = width;
                let width = LengthPercentage::Length(width);
                match side(name) {
                    0 => l.border.top = width,
                    1 => l.border.right = width,
                    2 => l.border.bottom = width,
                    _ => l.border.left = width,
                }
            }
            "border-top-color" | "border-right-color" | "border-bottom-color"
            | "border-left-color" => look.borders[side(name)].1 = self.color(value)?,
            "border-top-left-radius" => look.radius[0] = self.len(value)?,
            "border-top-right-radius" => look.radius[1] = self.len(value)?,
            "border-bottom-right-radius" => look.radius[2] = self.len(value)?,
            "border-bottom-left-radius" => look.radius[3] = self.len(value)?,
            "box-sizing" => {
                l.box_sizing = match kw {
                    "border-box" => taffy::BoxSizing::BorderBox,
                    "content-box" => taffy::BoxSizing::ContentBox,
                    _ => return None,
                }
            }
            "margin-top" => l.margin.top = self.lpa(value)?,
            "margin-right" => l.margin.right = self.lpa(value)?,
            "margin-bottom" => l.margin.bottom = self.lpa(value)?,
            "margin-left" => l.margin.left = self.lpa(value)?,
            "padding-top" => l.padding.top = self.lp(value)?,
            "padding-right" => l.padding.right = self.lp(value)?,
            "padding-bottom" => l.padding.bottom = self.lp(value)?,
            "padding-left" => l.padding.left = self.lp(value)?,
            "display" => {
                l.display = match kw {
                    "block" | "flow" => taffy::Display::Block,
                    "flex" => taffy::Display::Flex,
                    "grid" => taffy::Display::Grid,
                    _ => return None,
                }
            }
            "overflow-x" => l.overflow.x = overflow(kw)?,
            "overflow-y" => l.overflow.y = overflow(kw)?,
            "position" => {
                l.position = match kw {
                    "relative" => taffy::Position::Relative,
                    "absolute" => taffy::Position::Absolute,
                    _ => return None,
                }
            }
            "left" => l.inset.left = self.lpa(value)?,
            "right" => l.inset.right = self.lpa(value)?,
            "top" => l.inset.top = self.lpa(value)?,
            "bottom" => l.inset.bottom = self.lpa(value)?,
            "width" => l.size.width = self.dim(value)?,
            "height" => l.size.height = self.dim(value)?,
            "min-width" => l.min_size.width = self.dim(value)?,
            "min-height" => l.min_size.height = self.dim(value)?,
            "max-width" => l.max_size.width = self.dim(value)?,
            "max-height" => l.max_size.height = self.dim(value)?,
            "align-items" => l.align_items = items(kw)?,
            "align-self" => l.align_self = items(kw)?,
            "justify-items" => l.justify_items = items(kw)?,
            "justify-self" => l.justify_self = items(kw)?,
            "align-content" => l.align_content = contents(kw)?,
            "justify-content" => l.justify_content = contents(kw)?,
            "flex-direction" => {
                l.flex_direction = match kw {
                    "row" => taffy::FlexDirection::Row,
                    "row-reverse" => taffy::FlexDirection::RowReverse,
                    "column" => taffy::FlexDirection::Column,
                    "column-reverse" => taffy::FlexDirection::ColumnReverse,
                    _ => return None,
                }
            }
            "flex-wrap" => {
                l.flex_wrap = match kw {
                    "wrap" => taffy::FlexWrap::Wrap,
                    "nowrap" => taffy::FlexWrap::NoWrap,
                    "wrap-reverse" => taffy::FlexWrap::WrapReverse,
                    _ => return None,
                }
            }
            "flex-basis" => l.flex_basis = self.dim(value)?,
            "flex-grow" => l.flex_grow = self.number(value)?,
            "flex-shrink" => l.flex_shrink = self.number(value)?,
            "column-gap" => l.gap.width = self.lp(value)?,
            "row-gap" => l.gap.height = self.lp(value)?,
            n if n.starts_with("transition-") || n.starts_with("animation-") => {}
            name => panic!("harness: property {name}"),
        }
        Some(())
    }

    fn len(&self, value: &V) -> Option<Len> {
        match value {
            V::Pct(v) => Some(Len::Pct(v / 100.0)),
            value => self.px(value).map(Len::Px),
        }
    }
}

fn overflow(kw: &str) -> Option<Overflow> {
    Some(match kw {
        "visible" => Overflow::Visible,
        "hidden" => Overflow::Hidden,
        "clip" => Overflow::Clip,
        "scroll" | "auto" => Overflow::Scroll,
        _ => return None,
    })
}

fn items(kw: &str) -> Option<Option<taffy::AlignItems>> {
    Some(match kw {
        "normal" => None,
        "start" => Some(taffy::AlignItems::Start),
        "end" => Some(taffy::AlignItems::End),
        "flex-start" => Some(taffy::AlignItems::FlexStart),
        "flex-end" => Some(taffy::AlignItems::FlexEnd),
        "center" => Some(taffy::AlignItems::Center),
        "baseline" => Some(taffy::AlignItems::Baseline),
        "stretch" => Some(taffy::AlignItems::Stretch),
        _ => return None,
    })
}

fn contents(kw: &str) -> Option<Option<taffy::AlignContent>> {
    Some(match kw {
        "normal" => None,
        "start" => Some(taffy::AlignContent::Start),
        "end" => Some(taffy::AlignContent::End),
        "flex-start" => Some(taffy::AlignContent::FlexStart),
        "flex-end" => Some(taffy::AlignContent::FlexEnd),
        "center" => Some(taffy::AlignContent::Center),
        "stretch" => Some(taffy::AlignContent::Stretch),
        "space-between" => Some(taffy::AlignContent::SpaceBetween),
        "space-evenly" => Some(taffy::AlignContent::SpaceEvenly),
        "space-around" => Some(taffy::AlignContent::SpaceAround),
        _ => return None,
    })
}

/// Look of an element with the only property declared.
pub fn slot(name: &str, value: &V, vp: [f32; 2]) -> Option<Look> {
    let mut look = default_look();
    let parent = Parent {
        color: look.color,
        font: look.font.clone(),
        pointer_events: true,
    };
    Apply { vp, parent: &parent }.one(name, 0, value, &mut look)?;
    Some(look)
}

// ---------------------------------------------------------------- the whole tree

/// Look and computed values of an element, None if the look is not defined by styles.
pub type Reference = Vec<Option<(Look, Computed, Vars)>>;

pub fn cascade(snap: &Snap, ctx: &Ctx) -> Reference {
    let mut out: Reference = vec![None; snap.0.len()];
    if snap.0.is_empty() {
        return out;
    }
    let look = default_look();
    let root = Parent {
        color: look.color,
        font: look.font,
        pointer_events: true,
    };
    visit(snap, 0, ctx, &root, &Vars::new(), &mut out);
    out
}

fn visit(snap: &Snap, at: usize, ctx: &Ctx, parent: &Parent, vars: &Vars, out: &mut Reference) {
    let e = &snap.0[at];
    let mut look = default_look();
    if e.text.is_some() {
        look.color = parent.color;
        look.font = FontFace {
            align: TextAlign::Start,
            ..parent.font.clone()
        };
        look.pointer_events = parent.pointer_events;
        out[at] = Some((look, Computed::new(), vars.clone()));
        return;
    }
    look.color = parent.color;
    look.font = FontFace {
        align: TextAlign::Start,
        ..parent.font.clone()
    };
    look.pointer_events = parent.pointer_events;
    let mut vars = vars.clone();
    let mut computed = Computed::new();
    let tree = Tree { snap };
    for rule in &ctx.sheet.rules {
        if rule.sel.iter().any(|sel| tree.matches(sel, at, ctx.states)) {
            declare_all(&rule.decls, &mut vars, &mut computed);
        }
    }
    if let Some(style) = e.attrs.get("style") {
        declare_all(&inline(style), &mut vars, &mut computed);
    }
    let apply = Apply { vp: ctx.vp, parent };
    for ((name, index), value) in &computed {
        if let Ok(value) = value {
            let _ = apply.one(name, *index, value, &mut look);
        }
    }
    let next = Parent {
        color: look.color,
        font: look.font.clone(),
        pointer_events: look.pointer_events,
    };
    out[at] = Some((look, computed, vars.clone()));
    if is_void(&e.tag) {
        return;
    }
    for kid in &e.kids {
        visit(snap, *kid, ctx, &next, &vars, out);
    }
}

// ---------------------------------------------------------------- comparison with tolerance

pub fn near(a: f32, b: f32) -> bool {
    a == b || (a - b).abs() <= 1e-4 * (1.0 + a.abs().max(b.abs()))
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Unit {
    Px(f32),
    Pct(f32),
    Auto,
}

impl Unit {
    pub fn near(&self, other: &Unit) -> bool {
        match (self, other) {
            (Unit::Px(a), Unit::Px(b)) | (Unit::Pct(a), Unit::Pct(b)) => near(*a, *b),
            (Unit::Auto, Unit::Auto) => true,
            _ => false,
        }
    }
}

fn d(v: Dimension) -> Unit {
    match v {
        Dimension::Length(v) => Unit::Px(v),
        Dimension::Percent(v) => Unit::Pct(v),
        Dimension::Auto => Unit::Auto,
    }
}

fn lp(v: LengthPercentage) -> Unit {
    match v {
        LengthPercentage::Length(v) => Unit::Px(v),
        LengthPercentage::Percent(v) => Unit::Pct(v),
    }
}

fn lpa(v: LengthPercentageAuto) -> Unit {
    match v {
        LengthPercentageAuto::Length(v) => Unit::Px(v),
        LengthPercentageAuto::Percent(v) => Unit::Pct(v),
        LengthPercentageAuto::Auto => Unit::Auto,
    }
}

pub fn lengths(look: &Look) -> Vec<(&'static str, Unit)> {
    let s = &look.layout;
    let r = |v: &Len| match v {
        Len::Px(v) => Unit::Px(*v),
        Len::Pct(v) => Unit::Pct(*v),
    };
    vec![
        ("width", d(s.size.width)),
        ("height", d(s.size.height)),
        ("min-width", d(s.min_size.width)),
        ("min-height", d(s.min_size.height)),
        ("max-width", d(s.max_size.width)),
        ("max-height", d(s.max_size.height)),
        ("left", lpa(s.inset.left)),
        ("right", lpa(s.inset.right)),
        ("top", lpa(s.inset.top)),
        ("bottom", lpa(s.inset.bottom)),
        ("margin-left", lpa(s.margin.left)),
        ("margin-right", lpa(s.margin.right)),
        ("margin-top", lpa(s.margin.top)),
        ("margin-bottom", lpa(s.margin.bottom)),
        ("padding-left", lp(s.padding.left)),
        ("padding-right", lp(s.padding.right)),
        ("padding-top", lp(s.padding.top)),
        ("padding-bottom", lp(s.padding.bottom)),
        ("layout border-left", lp(s.border.left)),
        ("layout border-right", lp(s.border.right)),
        ("layout border-top", lp(s.border.top)),
        ("layout border-bottom", lp(s.border.bottom)),
        ("border-top-width", Unit::Px(look.borders[0].0)),
        ("border-right-width", Unit::Px(look.borders[1].0)),
        ("border-bottom-width", Unit::Px(look.borders[2].0)),
        ("border-left-width", Unit::Px(look.borders[3].0)),
        ("border-top-left-radius", r(&look.radius[0])),
        ("border-top-right-radius", r(&look.radius[1])),
        ("border-bottom-right-radius", r(&look.radius[2])),
        ("border-bottom-left-radius", r(&look.radius[3])),
        ("column-gap", lp(s.gap.width)),
        ("row-gap", lp(s.gap.height)),
        ("flex-basis", d(s.flex_basis)),
        ("flex-grow", Unit::Px(s.flex_grow)),
        ("flex-shrink", Unit::Px(s.flex_shrink)),
        ("font-size", Unit::Px(look.font.size)),
        ("opacity", Unit::Px(look.opacity)),
    ]
}

fn trim(layers: &[Layer]) -> &[Layer] {
    let mut n = layers.len();
    while n > 0 && layers[n - 1].image.is_none() && layers[n - 1].color[3] == 0 {
        n -= 1;
    }
    &layers[..n]
}

/// Difference of the actual look from the expected one (numbers up to rounding errors).
pub fn look_diff(actual: &Look, expected: &Look) -> Option<String> {
    for ((name, a), (_, b)) in lengths(actual).iter().zip(lengths(expected)) {
        if !a.near(&b) {
            return Some(format!("{name} is {a:?}, expected {b:?}"));
        }
    }
    macro_rules! check {
        ($name:expr, $a:expr, $b:expr) => {
            if $a != $b {
                return Some(format!("{} is {:?}, expected {:?}", $name, $a, $b));
            }
        };
    }
    check!("color", actual.color, expected.color);
    check!("font-family", actual.font.family, expected.font.family);
    check!("font-style", actual.font.style, expected.font.style);
    check!("font-weight", actual.font.weight, expected.font.weight);
    check!("text-align", actual.font.align, expected.font.align);
    check!("cursor", actual.cursor, expected.cursor);
    check!("visibility", actual.visible, expected.visible);
    check!("pointer-events", actual.pointer_events, expected.pointer_events);
    for (i, side) in ["top", "right", "bottom", "left"].iter().enumerate() {
        if actual.borders[i].1 != expected.borders[i].1 {
            return Some(format!(
                "border-{side}-color is {:?}, expected {:?}",
                actual.borders[i].1, expected.borders[i].1
            ));
        }
    }
    let (a, b) = (trim(&actual.layers), trim(&expected.layers));
    check!("number of backgrounds", a.len(), b.len());
    for (a, b) in a.iter().zip(b) {
        check!("background-image", a.image, b.image);
        check!("background-color", a.color, b.color);
        if !near(a.src[0], b.src[0]) || !near(a.src[1], b.src[1]) {
            return Some(format!("background-position is {:?}, expected {:?}", a.src, b.src));
        }
    }
    let (a, b) = (&actual.layout, &expected.layout);
    check!("display", a.display, b.display);
    check!("overflow", a.overflow, b.overflow);
    check!("position", a.position, b.position);
    check!("align-items", a.align_items, b.align_items);
    check!("align-self", a.align_self, b.align_self);
    check!("justify-items", a.justify_items, b.justify_items);
    check!("justify-self", a.justify_self, b.justify_self);
    check!("align-content", a.align_content, b.align_content);
    check!("justify-content", a.justify_content, b.justify_content);
    check!("flex-direction", a.flex_direction, b.flex_direction);
    check!("flex-wrap", a.flex_wrap, b.flex_wrap);
    check!("box-sizing", a.box_sizing, b.box_sizing);
    None
}
