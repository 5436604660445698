//! Driver of the real views: everything a view can observe is decided by the simulation.
use crate::scenario::*;
use bumaga::{
    FontFace, Fonts, Fragment, Input, InputEvent, Keys, Length, MouseButtons, Pointer,
    PointerEvents, RendererTranslator, View,
};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::time::Duration;

// ---------------------------------------------------------------- hash seeds

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
}

/// Must be called before the first use of hash tables by the thread.
pub fn set_hash_seed(seed: u64) {
    HASH_SEED.with(|cell| cell.set(seed));
}

/// The only source of entropy used by the standard library to seed hash tables.
/// # Safety
/// Same contract as of getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = HASH_SEED.with(|cell| cell.get()) ^ 0x5DEECE66D;
    for i in 0..len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (x >> 33) as u8;
    }
    HASH_SEED.with(|cell| cell.set(x));
    len as isize
}

// ---------------------------------------------------------------- fonts

#[derive(Clone, Copy)]
pub struct SimFonts {
    pub scale: f32,
}

impl SimFonts {
    fn char_width(&self, c: char, face: &FontFace) -> f32 {
        let mut width = face.size * self.scale;
        // characters are not of the same width
        width *= match c {
            'i' | 'l' | 'j' | '1' | '.' | ' ' | 't' => 0.5,
            'm' | 'w' | '@' | '\u{416}' => 1.5,
            c if c.is_uppercase() => 1.25,
            _ => 1.0,
        };
        if face.weight >= 600 {
            width *= 1.25;
        }
        if face.style != "normal" {
            width *= 1.5;
        }
        width *= match face.family.as_str() {
            "mono" => 1.1,
            "serif" => 0.9,
            _ => 1.0,
        };
        width.ceil().max(1.0)
    }

    pub fn line(&self, face: &FontFace) -> f32 {
        (face.size * face.line_height).ceil()
    }
}

impl Fonts for SimFonts {
    fn measure(&self, text: &str, face: &FontFace, max_width: Option<f32>) -> [f32; 2] {
        if text.is_empty() {
            return [0.0, 0.0];
        }
        // lines are filled with as many characters as possible, at least with one
        let mut lines = 1;
        let (mut line, mut widest) = (0.0f32, 0.0f32);
        for c in text.chars() {
            let width = self.char_width(c, face);
            if line > 0.0 && line + width > max_width.unwrap_or(f32::INFINITY) {
                lines += 1;
                line = 0.0;
            }
            line += width;
            widest = widest.max(line);
        }
        [widest, lines as f32 * self.line(face)]
    }
}

// ---------------------------------------------------------------- transformers

pub const TRANSFORMERS: [&str; 5] = ["up", "not", "len", "cut", "wrap"];

pub fn truthy(value: &Value) -> bool {
    match value {
        Value::Null => false,
        Value::Bool(v) => *v,
        Value::Number(n) => n.as_f64().unwrap_or(0.0) != 0.0,
        Value::String(s) => !s.is_empty(),
        Value::Array(a) => !a.is_empty(),
        Value::Object(_) => true,
    }
}

fn t_up(value: Value) -> Value {
    match value {
        Value::String(s) => Value::String(s.to_uppercase()),
        value => value,
    }
}

fn t_up_other(value: Value) -> Value {
    match value {
        Value::String(s) => Value::String(format!("{s}!")),
        value => value,
    }
}

fn t_not(value: Value) -> Value {
    Value::Bool(!truthy(&value))
}

fn t_not_other(value: Value) -> Value {
    Value::Bool(truthy(&value))
}

fn t_len(value: Value) -> Value {
    match value {
        Value::Array(a) => json!(a.len()),
        Value::String(s) => json!(s.chars().count()),
        Value::Object(o) => json!(o.len()),
        _ => json!(0),
    }
}

fn t_cut(value: Value) -> Value {
    match value {
        Value::Array(a) => Value::Array(a.into_iter().take(2).collect()),
        Value::String(s) => Value::String(s.chars().take(2).collect()),
        value => value,
    }
}

fn t_cut_other(value: Value) -> Value {
    match value {
        Value::Array(a) => Value::Array(a.into_iter().take(1).collect()),
        Value::String(s) => Value::String(s.chars().take(1).collect()),
        value => value,
    }
}

fn t_wrap(value: Value) -> Value {
    match value {
        Value::Null => Value::Null,
        Value::Array(_) | Value::Object(_) => json!({ "v": value }),
        value => Value::String(format!("[{}]", text(&value))),
    }
}

/// Text representation of values.
pub fn text(value: &Value) -> String {
    match value {
        Value::Null => String::new(),
        Value::Bool(v) => v.to_string(),
        Value::Number(n) => n.to_string(),
        Value::String(s) => s.clone(),
        Value::Array(_) => "[array]".to_string(),
        Value::Object(_) => "{object}".to_string(),
    }
}

fn transformer(tr: u8, name: &str) -> fn(Value) -> Value {
    match (name, tr % 2) {
        ("up", 0) => t_up,
        ("up", _) => t_up_other,
        ("not", 0) => t_not,
        ("not", _) => t_not_other,
        ("len", _) => t_len,
        ("cut", 0) => t_cut,
        ("cut", _) => t_cut_other,
        ("wrap", _) => t_wrap,
        _ => panic!("harness: unknown transformer {name}"),
    }
}

/// Reference of transformations.
pub fn transform(tr: u8, name: &str, value: Value) -> Value {
    if name == "duration" {
        return match value.as_f64().map(Duration::try_from_secs_f64) {
            Some(Ok(duration)) => Value::String(format!("{duration:?}")),
            _ => value,
        };
    }
    if name == UNKNOWN {
        return value;
    }
    transformer(tr, name)(value)
}

/// Transformer that is never registered.
const UNKNOWN: &str = "nope";

// ---------------------------------------------------------------- translator

struct Translator {
    tr: u8,
}

impl RendererTranslator for Translator {
    fn translate(&self, span: String) -> String {
        translate(self.tr, &span)
    }
}

/// Reference of translation of static texts.
pub fn translate(tr: u8, span: &str) -> String {
    match tr % 2 {
        0 => span.to_string(),
        _ => format!("{}\u{b7}", span.replace('a', "\u{e5}")),
    }
}

// ---------------------------------------------------------------- snapshot

#[derive(Clone, Debug, PartialEq)]
pub struct Layer {
    pub image: Option<String>,
    pub is_src: bool,
    pub color: [u8; 4],
    pub src: [f32; 2],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Len {
    Px(f32),
    Pct(f32),
}

/// Everything displayed of one element.
#[derive(Clone, Debug, PartialEq)]
pub struct Look {
    pub color: [u8; 4],
    pub font: FontFace,
    pub layers: Vec<Layer>,
    pub borders: [(f32, [u8; 4]); 4],
    pub radius: [Len; 4],
    pub opacity: f32,
    pub pointer_events: bool,
    pub cursor: Pointer,
    pub visible: bool,
    pub layout: taffy::Style,
}

#[derive(Clone, Debug)]
pub struct El {
    pub node: u64,
    pub parent: Option<usize>,
    pub kids: Vec<usize>,
    pub k: String,
    pub tag: String,
    pub text: Option<String>,
    pub attrs: BTreeMap<String, String>,
    pub look: Look,
    pub pos: [f32; 2],
    pub size: [f32; 2],
    pub content: [f32; 2],
    pub total_opacity: f32,
    pub scrolling: Option<[f32; 4]>,
    pub clipping: Option<[f32; 4]>,
    /// location, size, content size
    pub layout: [f32; 6],
}

/// The shown elements in pre-order.
#[derive(Clone, Debug, Default)]
pub struct Snap(pub Vec<El>);

fn len(value: &Length) -> Len {
    match value {
        Length::Number(v) => Len::Px(*v),
        Length::Percent(v) => Len::Pct(*v),
    }
}

pub fn snap(view: &View) -> Snap {
    let mut out = vec![];
    collect(view.body(), None, &mut out);
    Snap(out)
}

fn collect(fragment: Fragment, parent: Option<usize>, out: &mut Vec<El>) -> usize {
    let e = fragment.element;
    let style = fragment.tree.style(e.node).expect("node of tree").clone();
    let layout = fragment.tree.layout(e.node).expect("node of tree");
    let b = &e.borders;
    let index = out.len();
    out.push(El {
        node: u64::from(e.node),
        parent,
        kids: vec![],
        k: e.attrs.get("k").cloned().unwrap_or_default(),
        tag: e.tag.clone(),
        text: e.text.as_ref().map(|text| text.to_string()),
        attrs: e.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        look: Look {
            color: e.color,
            font: e.font.clone(),
            layers: e
                .backgrounds
                .iter()
                .map(|b| Layer {
                    image: b.image.clone(),
                    is_src: b.is_src,
                    color: b.color,
                    src: b.src,
                })
                .collect(),
            borders: [
                (b.top.width, b.top.color),
                (b.right.width, b.right.color),
                (b.bottom.width, b.bottom.color),
                (b.left.width, b.left.color),
            ],
            radius: [
                len(&b.radius[0]),
                len(&b.radius[1]),
                len(&b.radius[2]),
                len(&b.radius[3]),
            ],
            opacity: e.self_opacity,
            pointer_events: e.pointer_events == PointerEvents::Auto,
            cursor: e.pointer,
            visible: e.visible,
            layout: style,
        },
        pos: e.position,
        size: e.size,
        content: e.content_size,
        total_opacity: e.opacity,
        scrolling: e.scrolling.as_ref().map(|s| [s.x, s.y, s.scroll_x, s.scroll_y]),
        clipping: e
            .clipping
            .as_ref()
            .map(|c| [c.location.x, c.location.y, c.size.width, c.size.height]),
        layout: [
            layout.location.x,
            layout.location.y,
            layout.size.width,
            layout.size.height,
            layout.content_size.width,
            layout.content_size.height,
        ],
    });
    for kid in fragment.children() {
        let kid = collect(kid, Some(index), out);
        out[index].kids.push(kid);
    }
    index
}

impl Snap {
    pub fn path(&self, index: usize) -> String {
        let mut parts = vec![];
        let mut at = Some(index);
        while let Some(i) = at {
            let e = &self.0[i];
            let name = if e.text.is_some() {
                "#text".to_string()
            } else {
                format!("{}.{}", e.tag, e.k)
            };
            let ordinal = e.parent.map(|p| self.0[p].kids.iter().position(|k| *k == i).unwrap());
            parts.push(match ordinal {
                Some(n) => format!("{name}[{n}]"),
                None => name,
            });
            at = e.parent;
        }
        parts.reverse();
        parts.join("/")
    }

    pub fn finite(&self) -> Result<(), String> {
        for (i, e) in self.0.iter().enumerate() {
            let mut numbers = vec![];
            numbers.extend(e.pos);
            numbers.extend(e.size);
            numbers.extend(e.content);
            numbers.extend(e.layout);
            numbers.push(e.total_opacity);
            if let Some(s) = e.scrolling {
                numbers.extend(s);
            }
            if let Some(c) = e.clipping {
                numbers.extend(c);
            }
            if numbers.iter().any(|n| !n.is_finite()) {
                return Err(format!(
                    "{} has pos {:?} size {:?} content {:?} opacity {} scrolling {:?} clipping {:?}",
                    self.path(i),
                    e.pos,
                    e.size,
                    e.content,
                    e.total_opacity,
                    e.scrolling,
                    e.clipping
                ));
            }
        }
        Ok(())
    }

    /// Compares everything what is displayed.
    pub fn diff(&self, other: &Snap) -> Option<String> {
        for (i, a) in self.0.iter().enumerate() {
            let b = match other.0.get(i) {
                Some(b) => b,
                None => return Some(format!("extra {}", self.path(i))),
            };
            let at = self.path(i);
            macro_rules! check {
                ($name:expr, $a:expr, $b:expr) => {
                    if $a != $b {
                        return Some(format!("{at} {}: {:?} instead of {:?}", $name, $a, $b));
                    }
                };
            }
            check!("element", (&a.tag, &a.k), (&b.tag, &b.k));
            check!("parent", a.parent, b.parent);
            check!("text", a.text, b.text);
            check!("attributes", a.attrs, b.attrs);
            if let Some(diff) = a.look.diff(&b.look) {
                return Some(format!("{at} {diff}"));
            }
            check!("layout", a.layout, b.layout);
            check!("position", a.pos, b.pos);
            check!("size", a.size, b.size);
            check!("content size", a.content, b.content);
            check!("opacity", a.total_opacity, b.total_opacity);
            check!("scrolling", a.scrolling, b.scrolling);
            check!("clipping", a.clipping, b.clipping);
        }
        if other.0.len() > self.0.len() {
            return Some(format!("missing {}", other.path(self.0.len())));
        }
        None
    }
}

impl Look {
    pub fn diff(&self, other: &Look) -> Option<String> {
        macro_rules! check {
            ($field:ident) => {
                if self.$field != other.$field {
                    return Some(format!(
                        "{}: {:?} instead of {:?}",
                        stringify!($field),
                        self.$field,
                        other.$field
                    ));
                }
            };
        }
        check!(color);
        check!(font);
        check!(layers);
        check!(borders);
        check!(radius);
        check!(opacity);
        check!(pointer_events);
        check!(cursor);
        check!(visible);
        layout_diff(&self.layout, &other.layout)
    }
}

pub fn layout_diff(a: &taffy::Style, b: &taffy::Style) -> Option<String> {
    macro_rules! check {
        ($($field:ident),*) => {
            $(if a.$field != b.$field {
                return Some(format!(
                    "layout {}: {:?} instead of {:?}",
                    stringify!($field),
                    a.$field,
                    b.$field
                ));
            })*
        };
    }
    check!(
        display, overflow, position, inset, size, min_size, max_size, margin, padding, border,
        align_items, align_self, justify_items, justify_self, align_content, justify_content, gap,
        flex_direction, flex_wrap, flex_basis, flex_grow, flex_shrink, box_sizing
    );
    if a != b {
        return Some(format!("layout: {a:?} instead of {b:?}"));
    }
    None
}

// ---------------------------------------------------------------- driver

#[derive(Clone, Debug)]
pub struct Out {
    pub messages: Vec<Value>,
    pub captured: bool,
    pub cursor: Pointer,
    /// events as they were delivered
    pub events: Vec<InputEvent>,
}

pub struct Sim {
    pub view: View,
    pub snap: Snap,
    pub frames: u64,
}

pub const KEYS: [Keys; 19] = [
    Keys::Unknown,
    Keys::Escape,
    Keys::Backspace,
    Keys::Delete,
    Keys::Insert,
    Keys::Enter,
    Keys::Tab,
    Keys::ArrowUp,
    Keys::ArrowDown,
    Keys::ArrowLeft,
    Keys::ArrowRight,
    Keys::End,
    Keys::Home,
    Keys::PageDown,
    Keys::PageUp,
    Keys::Alt,
    Keys::CapsLock,
    Keys::Ctrl,
    Keys::Shift,
];

pub fn create(html: &str, css: &str, font: f32, tr: u8) -> Result<View, String> {
    let fonts = SimFonts { scale: font };
    let mut view = View::from_html(html, css, "./assets", fonts, Box::new(Translator { tr }))
        .map_err(|error| format!("{error:?}"))?;
    for name in TRANSFORMERS {
        view = view.pipe(name, transformer(tr, name));
    }
    Ok(view)
}

impl Sim {
    pub fn new(source: &Source) -> Result<Sim, String> {
        let view = create(&source.html(), &source.css(), source.font, source.tr)?;
        Ok(Sim {
            view,
            snap: Snap::default(),
            frames: 0,
        })
    }

    /// Aimed events depend on the last known geometry.
    pub fn resolve(&self, events: &[Ev]) -> Vec<InputEvent> {
        let button = |left: bool| if left { MouseButtons::Left } else { MouseButtons::Right };
        events
            .iter()
            .map(|event| match event {
                Ev::Move(x, y) => InputEvent::MouseMove([*x, *y]),
                Ev::Aim(n, fx, fy) => {
                    if self.snap.0.is_empty() {
                        InputEvent::MouseMove([1.0, 1.0])
                    } else {
                        let e = &self.snap.0[*n as usize % self.snap.0.len()];
                        InputEvent::MouseMove([
                            e.pos[0] + e.size[0] * fx,
                            e.pos[1] + e.size[1] * fy,
                        ])
                    }
                }
                Ev::Down(left) => InputEvent::MouseButtonDown(button(*left)),
                Ev::Up(left) => InputEvent::MouseButtonUp(button(*left)),
                Ev::Wheel(x, y) => InputEvent::MouseWheel([*x, *y]),
                Ev::KeyDown(n) => InputEvent::KeyDown(KEYS[*n as usize % KEYS.len()]),
                Ev::KeyUp(n) => InputEvent::KeyUp(KEYS[*n as usize % KEYS.len()]),
                Ev::Char(c) => InputEvent::Char(*c),
                Ev::Unknown => InputEvent::Unknown,
            })
            .collect()
    }

    pub fn frame(&mut self, frame: &Frame) -> Result<Out, String> {
        let events = self.resolve(&frame.ev);
        self.update(frame.dt, frame.vp, events, &frame.value)
    }

    pub fn update(
        &mut self,
        dt: u64,
        vp: [f32; 2],
        events: Vec<InputEvent>,
        value: &Value,
    ) -> Result<Out, String> {
        let input = Input::new()
            .time(Duration::from_micros(dt))
            .viewport(vp)
            .events(events.clone());
        let output = self
            .view
            .update(input, value.clone())
            .map_err(|error| format!("update failed: {error:?}"))?;
        self.snap = snap(&self.view);
        self.frames += 1;
        Ok(Out {
            messages: output.messages,
            captured: output.is_input_captured,
            cursor: output.pointer,
            events,
        })
    }
}
