//! Reference of interaction: hover, press, click, focus and drag as a small state machine
//! over the geometry of shown elements.
use crate::bind::{lookup, resolve, Info};
use crate::casc::State;
use crate::scenario::Arg;
use crate::sim::{text, transform, Snap};
use bumaga::{InputEvent, MouseButtons, Pointer};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Msg {
    pub event: &'static str,
    pub k: String,
    pub value: Value,
    /// the key is bound to the data
    pub bound: bool,
}

#[derive(Clone, Copy)]
struct Place {
    pos: [f32; 2],
    size: [f32; 2],
    draggable: bool,
}

#[derive(Default)]
pub struct Ptr {
    pub mouse: [f32; 2],
    pub hover: Vec<u64>,
    pub action: Vec<u64>,
    pub focus: Option<u64>,
    pub drag: Option<u64>,
    pub states: HashMap<u64, State>,
    infos: HashMap<u64, Rc<Info>>,
    places: HashMap<u64, Place>,
    out: Vec<Msg>,
    /// rare situations that happened
    pub probes: std::collections::BTreeMap<&'static str, u64>,
}

pub struct Expected {
    pub messages: Vec<Msg>,
    pub captured: bool,
    pub cursor: Pointer,
}

impl Expected {
    pub fn values(&self) -> Vec<Value> {
        self.messages.iter().map(|m| m.value.clone()).collect()
    }
}

pub fn cursor_name(p: Pointer) -> String {
    format!("{p:?}")
}

impl Ptr {
    pub fn new() -> Self {
        Self::default()
    }

    fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_default() += 1;
    }

    fn under(&self, snap: &Snap, at: [f32; 2]) -> Vec<u64> {
        snap.0
            .iter()
            .filter(|e| {
                let x = at[0] - e.pos[0];
                let y = at[1] - e.pos[1];
                e.look.pointer_events
                    && e.look.visible
                    && x >= 0.0
                    && x < e.size[0]
                    && y >= 0.0
                    && y < e.size[1]
            })
            .map(|e| e.node)
            .collect()
    }

    pub fn frame(
        &mut self,
        snap: &Snap,
        infos: HashMap<u64, Rc<Info>>,
        events: &[InputEvent],
        value: &Value,
        tr: u8,
    ) -> Expected {
        for e in &snap.0 {
            self.places.insert(
                e.node,
                Place {
                    pos: e.pos,
                    size: e.size,
                    draggable: e.attrs.get("draggable").map(|v| v == "true").unwrap_or(false),
                },
            );
        }
        self.infos.extend(infos);
        self.out = vec![];
        let ctx = (value, tr);
        // hidden element can't keep focus
        if let Some(focus) = self.focus {
            if !snap.0.iter().any(|e| e.node == focus) {
                self.probe("focused element hidden");
                self.focus = None;
                self.state(focus).focus = false;
                self.mouse_event(focus, "onblur", ctx);
            }
        }
        let synthetic = !matches!(events.first(), Some(InputEvent::MouseMove(_)));
        if synthetic {
            let before = self.hover.clone();
            self.moved(snap, self.mouse, ctx);
            if before != self.hover {
                self.probe("hover changed under resting pointer");
            }
        }
        for event in events {
            match event {
                InputEvent::MouseMove(at) => self.moved(snap, *at, ctx),
                InputEvent::MouseButtonDown(button) => self.down(*button, ctx),
                InputEvent::MouseButtonUp(button) => self.up(*button, ctx),
                InputEvent::KeyDown(key) => {
                    self.key("onkeydown", "key", serde_json::to_value(key).unwrap(), ctx)
                }
                InputEvent::KeyUp(key) => {
                    self.key("onkeyup", "key", serde_json::to_value(key).unwrap(), ctx)
                }
                InputEvent::Char(c) => self.key("oninput", "char", json!(c), ctx),
                InputEvent::MouseWheel(_) | InputEvent::Unknown => {}
            }
        }
        let mut cursor = Pointer::Auto;
        let looks: HashMap<u64, Pointer> =
            snap.0.iter().map(|e| (e.node, e.look.cursor)).collect();
        for node in &self.hover {
            if let Some(pointer) = looks.get(node) {
                if !matches!(pointer, Pointer::Auto) {
                    cursor = *pointer;
                }
            }
        }
        Expected {
            messages: std::mem::take(&mut self.out),
            captured: !self.hover.is_empty()
                || self.drag.is_some()
                || self.focus.is_some()
                || !self.action.is_empty(),
            cursor,
        }
    }

    fn state(&mut self, node: u64) -> &mut State {
        self.states.entry(node).or_default()
    }

    fn moved(&mut self, snap: &Snap, at: [f32; 2], ctx: (&Value, u8)) {
        self.mouse = at;
        let under = self.under(snap, at);
        let previous = std::mem::replace(&mut self.hover, under);
        for node in previous.iter().rev() {
            if !self.hover.contains(node) {
                self.state(*node).hover = false;
                self.mouse_event(*node, "onmouseleave", ctx);
                if self.drag.is_some() {
                    self.mouse_event(*node, "ondragleave", ctx);
                }
            }
        }
        for node in self.hover.clone().iter().rev() {
            if !previous.contains(node) {
                self.state(*node).hover = true;
                self.mouse_event(*node, "onmouseenter", ctx);
                if self.drag.is_some() {
                    self.mouse_event(*node, "ondragenter", ctx);
                }
            }
            self.mouse_event(*node, "onmousemove", ctx);
            if self.drag.is_some() {
                self.mouse_event(*node, "ondragover", ctx);
            }
        }
    }

    fn listens(&self, node: u64, event: &str) -> bool {
        self.infos.get(&node).and_then(|info| info.args(event)).is_some()
    }

    fn end_drag(&mut self, ctx: (&Value, u8)) {
        if let Some(source) = self.drag.take() {
            self.mouse_event(source, "ondragend", ctx);
        }
    }

    fn down(&mut self, button: MouseButtons, ctx: (&Value, u8)) {
        if button == MouseButtons::Left {
            if self.drag.is_some() {
                self.probe("release of drag lost");
            }
            self.end_drag(ctx);
        }
        if let Some(focus) = self.focus {
            if !self.hover.contains(&focus) {
                self.focus = None;
                self.state(focus).focus = false;
                self.mouse_event(focus, "onblur", ctx);
            }
        }
        for node in self.hover.clone().into_iter().rev() {
            self.state(node).active = true;
            self.action.push(node);
            if self.listens(node, "oninput") {
                if let Some(focus) = self.focus {
                    if focus != node {
                        self.focus = None;
                        self.state(focus).focus = false;
                        self.mouse_event(focus, "onblur", ctx);
                    }
                }
                if self.focus != Some(node) {
                    self.focus = Some(node);
                    self.state(node).focus = true;
                    self.mouse_event(node, "onfocus", ctx);
                }
            }
            self.mouse_event(node, "onmousedown", ctx);
            if button == MouseButtons::Left && self.drag.is_none() && self.places[&node].draggable {
                self.mouse_event(node, "ondragstart", ctx);
                self.drag = Some(node);
                self.probe("drag started");
            }
        }
    }

    fn up(&mut self, button: MouseButtons, ctx: (&Value, u8)) {
        let dragging = self.drag.is_some();
        if self.action.iter().any(|node| !self.hover.contains(node)) {
            self.probe("released elsewhere");
        }
        for node in self.hover.clone().into_iter().rev() {
            self.mouse_event(node, "onmouseup", ctx);
            if let Some(source) = self.drag {
                if self.listens(node, "ondrop") {
                    self.mouse_event(node, "ondrop", ctx);
                    self.drag = None;
                    self.mouse_event(source, "ondragend", ctx);
                    self.probe("dropped");
                }
            } else if !dragging {
                if button == MouseButtons::Left && self.state(node).active {
                    self.mouse_event(node, "onclick", ctx);
                    self.probe("clicked");
                }
                if button == MouseButtons::Right {
                    self.mouse_event(node, "oncontextmenu", ctx);
                }
            }
        }
        if button == MouseButtons::Left {
            self.end_drag(ctx);
        }
        for node in std::mem::take(&mut self.action) {
            self.state(node).active = false;
        }
    }

    fn target(&self, node: u64) -> Value {
        let place = self.places[&node];
        let state = self.states.get(&node).copied().unwrap_or_default();
        json!({
            "size": place.size,
            "position": place.pos,
            "state": {
                "active": state.active,
                "hover": state.hover,
                "focus": state.focus,
                "checked": false
            }
        })
    }

    fn mouse_event(&mut self, node: u64, event: &'static str, ctx: (&Value, u8)) {
        if self.listens(node, event) {
            let value = json!({ "position": self.mouse, "target": self.target(node) });
            self.emit(node, event, value, ctx);
        }
    }

    fn key(&mut self, event: &'static str, name: &str, key: Value, ctx: (&Value, u8)) {
        if let Some(node) = self.focus {
            if self.listens(node, event) {
                let value = json!({ name: key, "target": self.target(node) });
                self.emit(node, event, value, ctx);
                self.probe("key delivered to focused element");
            }
        }
    }

    fn emit(&mut self, node: u64, event: &'static str, details: Value, ctx: (&Value, u8)) {
        let info = self.infos[&node].clone();
        let mut key = "Undefined".to_string();
        let mut arguments = vec![];
        for (index, arg) in info.args(event).expect("listener").iter().enumerate() {
            let argument = match arg {
                Arg::Key(k) => Value::String(k.clone()),
                Arg::Event => details.clone(),
                Arg::B(bind) => {
                    let mut value = lookup(ctx.0, &resolve(&info.scope, &bind.path)).clone();
                    for name in &bind.pipe {
                        value = transform(ctx.1, name, value);
                    }
                    value
                }
            };
            if index == 0 {
                key = text(&argument);
            } else {
                arguments.push(argument);
            }
        }
        let value = match arguments.len() {
            0 => Value::String(key),
            1 => {
                let mut object = Map::new();
                object.insert(key, arguments.remove(0));
                Value::Object(object)
            }
            _ => {
                let mut object = Map::new();
                object.insert(key, Value::Array(arguments));
                Value::Object(object)
            }
        };
        let bound = matches!(info.args(event).and_then(|args| args.first()), Some(Arg::B(_)));
        self.out.push(Msg { event, k: info.k.clone(), value, bound });
    }
}

/// Key and event name of an actual message (keys are written as `event-marker`).
pub fn message_key(message: &Value) -> Option<&str> {
    match message {
        Value::String(key) => Some(key),
        Value::Object(object) if object.len() == 1 => object.keys().next().map(|k| k.as_str()),
        _ => None,
    }
}

pub fn message_event(message: &Value) -> &str {
    message_key(message).and_then(|key| key.split('-').next()).unwrap_or("")
}
