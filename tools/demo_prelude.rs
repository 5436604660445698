#![allow(dead_code, unused_imports)]
use bumaga::*;
use serde_json::{json, Value};
use std::time::Duration;

struct Same;

impl RendererTranslator for Same {
    fn translate(&self, span: String) -> String {
        span
    }
}

struct Mono;

impl Fonts for Mono {
    fn measure(&self, text: &str, face: &FontFace, _max_width: Option<f32>) -> [f32; 2] {
        [text.chars().count() as f32 * face.size / 2.0, face.size]
    }
}

fn view(html: &str, css: &str) -> View {
    View::from_html(html, css, "", Mono, Box::new(Same)).expect("view")
}

fn step_at(view: &mut View, value: Value, events: Vec<InputEvent>, dt: f32, viewport: [f32; 2]) -> Output {
    let input = Input::new().viewport(viewport).time(Duration::from_secs_f32(dt)).events(events);
    view.update(input, value).expect("update")
}

fn step(view: &mut View, value: Value, events: Vec<InputEvent>, dt: f32) -> Output {
    step_at(view, value, events, dt, [800.0, 600.0])
}

fn texts(fragment: Fragment, out: &mut Vec<String>) {
    if let Some(text) = &fragment.element.text {
        out.push(text.to_string());
    }
    for child in fragment.children() {
        texts(child, out);
    }
}

fn shown(view: &View) -> Vec<String> {
    let mut out = vec![];
    texts(view.body(), &mut out);
    out
}

fn look<R>(fragment: &Fragment, id: &str, f: &dyn Fn(&Fragment) -> R) -> Option<R> {
    if fragment.element.attrs.get("k").map(|k| k == id).unwrap_or(false) {
        return Some(f(fragment));
    }
    fragment.children().iter().find_map(|child| look(child, id, f))
}

/// What is read from the first shown element with attribute k.
fn get<R>(view: &View, id: &str, f: impl Fn(&Fragment) -> R) -> R {
    look(&view.body(), id, &f).expect("element is shown")
}

fn mv(x: f32, y: f32) -> InputEvent {
    InputEvent::MouseMove([x, y])
}

fn down() -> InputEvent {
    InputEvent::MouseButtonDown(MouseButtons::Left)
}

fn up() -> InputEvent {
    InputEvent::MouseButtonUp(MouseButtons::Left)
}
