//! Minimisation of scenarios: parts are removed while the same class of failure is reproduced.
use crate::bind::conflict;
use crate::scenario::*;
use serde_json::Value;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum At {
    Key(String),
    Index(usize),
}

type Path = Vec<At>;

fn get<'v>(value: &'v mut Value, path: &[At]) -> Option<&'v mut Value> {
    let mut at = value;
    for step in path {
        at = match step {
            At::Key(key) => at.get_mut(key.as_str())?,
            At::Index(index) => at.get_mut(*index)?,
        };
    }
    Some(at)
}

fn down(path: &Path, step: At) -> Path {
    let mut path = path.clone();
    path.push(step);
    path
}

/// Arrays whose elements can be removed.
fn arrays(value: &Value, path: &Path, inside: Inside, out: &mut Vec<Path>) {
    match value {
        Value::Array(items) => {
            let removable = match inside {
                Inside::List | Inside::Data => true,
                // combinator with compound
                Inside::Selector => !items.first().map(|i| i.is_string()).unwrap_or(false),
                Inside::Other => false,
            };
            if removable && !items.is_empty() {
                out.push(path.clone());
            }
            let inner = match inside {
                Inside::List => Inside::Other,
                other => other,
            };
            for (i, item) in items.iter().enumerate() {
                arrays(item, &down(path, At::Index(i)), inner, out);
            }
        }
        Value::Object(fields) => {
            if let Inside::Data = inside {
                if !fields.is_empty() {
                    out.push(path.clone());
                }
            }
            for (key, field) in fields {
                let inside = match (inside, key.as_str()) {
                    (Inside::Data, _) => Inside::Data,
                    (Inside::Selector, _) => Inside::Other,
                    (_, "value") => Inside::Data,
                    (_, "sel") => Inside::Selector,
                    (
                        _,
                        "steps" | "ev" | "kids" | "attrs" | "on" | "alias" | "rules" | "decls"
                        | "keyframes" | "frames" | "parts" | "hashes" | "faults" | "Text",
                    ) => Inside::List,
                    _ => Inside::Other,
                };
                arrays(field, &down(path, At::Key(key.clone())), inside, out);
            }
        }
        _ => {}
    }
}

#[derive(Clone, Copy)]
enum Inside {
    List,
    Data,
    Selector,
    Other,
}

/// Paths of objects with the key.
fn with_key(value: &Value, path: &Path, key: &str, out: &mut Vec<Path>) {
    match value {
        Value::Array(items) => {
            for (i, item) in items.iter().enumerate() {
                with_key(item, &down(path, At::Index(i)), key, out);
            }
        }
        Value::Object(fields) => {
            if fields.contains_key(key) {
                out.push(path.clone());
            }
            for (name, field) in fields {
                if name != "value" {
                    with_key(field, &down(path, At::Key(name.clone())), key, out);
                }
            }
        }
        _ => {}
    }
}

/// Scenarios outside of the domain of references must not be reported.
pub fn valid(sc: &Scenario) -> bool {
    fn text(spans: &[Span]) -> bool {
        let edge = |span: Option<&Span>, end: bool| match span {
            None => false,
            Some(Span::B(_)) => true,
            Some(Span::L(s)) => {
                let c = if end { s.chars().next_back() } else { s.chars().next() };
                c.map(|c| !c.is_whitespace()).unwrap_or(false)
            }
        };
        let literals = spans.windows(2).any(|p| matches!(p, [Span::L(_), Span::L(_)]));
        edge(spans.first(), false) && edge(spans.last(), true) && !literals
    }
    fn node(n: &Node) -> bool {
        n.attrs.iter().all(|attr| match attr {
            Attr::Bound(_, spans) => spans.iter().any(|s| matches!(s, Span::B(_))),
            _ => true,
        }) && n.on.iter().all(|(_, args)| !matches!(args.first(), None | Some(Arg::Event)))
            && !n.kids.windows(2).any(|p| matches!(p, [Kid::Text(_), Kid::Text(_)]))
            && n.kids.iter().all(|kid| match kid {
                Kid::Text(spans) => text(spans),
                Kid::El(n) => node(n),
            })
    }
    sc.views.iter().all(|view| {
        node(&view.tpl.body)
            && view.tpl.comps.iter().all(node)
            && !conflict(&view.tpl)
            && view.css.rules.iter().all(|rule| {
                !rule.sel.is_empty()
                    && !rule.decls.is_empty()
                    && rule.sel.iter().all(|c| {
                        !c.0.is_empty() && c.0.iter().all(|(_, compound)| !compound.is_empty())
                    })
            })
            && view.css.keyframes.iter().all(|k| {
                !k.frames.is_empty() && k.frames.iter().all(|(_, decls)| !decls.is_empty())
            })
    })
}

fn merge_texts(node: &mut Node) {
    let mut kids: Vec<Kid> = vec![];
    for mut kid in std::mem::take(&mut node.kids) {
        if let Kid::El(node) = &mut kid {
            merge_texts(node);
        }
        match (kids.last_mut(), kid) {
            (Some(Kid::Text(_)), Kid::Text(_)) => {}
            (_, kid) => kids.push(kid),
        }
    }
    node.kids = kids;
}

struct Shrinker<'a> {
    best: Value,
    same: &'a dyn Fn(&Scenario) -> bool,
    until: Instant,
    evals: u64,
}

impl Shrinker<'_> {
    fn over(&self) -> bool {
        Instant::now() >= self.until
    }

    fn attempt(&mut self, candidate: Value) -> bool {
        if candidate == self.best || self.over() {
            return false;
        }
        let mut sc: Scenario = match serde_json::from_value(candidate) {
            Ok(sc) => sc,
            Err(_) => return false,
        };
        for view in &mut sc.views {
            merge_texts(&mut view.tpl.body);
            view.tpl.comps.iter_mut().for_each(merge_texts);
        }
        if !valid(&sc) {
            return false;
        }
        self.evals += 1;
        if (self.same)(&sc) {
            self.best = serde_json::to_value(&sc).unwrap();
            return true;
        }
        false
    }

    fn len(&mut self, path: &Path) -> usize {
        match get(&mut self.best, path) {
            Some(Value::Array(items)) => items.len(),
            Some(Value::Object(fields)) => fields.len(),
            _ => 0,
        }
    }

    /// Removes chunks of the list, from large to small ones.
    fn reduce(&mut self, path: &Path) -> bool {
        let mut any = false;
        let mut chunk = self.len(path);
        while chunk > 0 && !self.over() {
            let mut end = self.len(path);
            while end > 0 && !self.over() {
                let start = end.saturating_sub(chunk);
                let mut candidate = self.best.clone();
                match get(&mut candidate, path) {
                    Some(Value::Array(items)) if end <= items.len() => {
                        items.drain(start..end);
                    }
                    Some(Value::Object(fields)) if end <= fields.len() => {
                        let keys: Vec<String> = fields.keys().skip(start).take(end - start).cloned().collect();
                        for key in keys {
                            fields.remove(&key);
                        }
                    }
                    _ => return any,
                }
                if self.attempt(candidate) {
                    any = true;
                }
                end = start.min(self.len(path));
            }
            chunk /= 2;
        }
        any
    }

    fn lists(&mut self) -> bool {
        let mut paths = vec![];
        arrays(&self.best, &vec![], Inside::Other, &mut paths);
        let mut any = false;
        for path in paths {
            if self.len(&path) > 0 {
                any |= self.reduce(&path);
            }
            if self.over() {
                break;
            }
        }
        any
    }

    fn fields(&mut self) -> bool {
        let mut any = false;
        for key in ["vis", "rep"] {
            let mut paths = vec![];
            with_key(&self.best, &vec![], key, &mut paths);
            for path in paths.into_iter().rev() {
                let mut candidate = self.best.clone();
                if let Some(Value::Object(fields)) = get(&mut candidate, &path) {
                    fields.remove(key);
                }
                any |= self.attempt(candidate);
            }
        }
        // elements are replaced by their children
        let mut paths = vec![];
        with_key(&self.best, &vec![], "kids", &mut paths);
        for path in paths.into_iter().rev() {
            let mut candidate = self.best.clone();
            let kids = match get(&mut candidate, &down(&path, At::Key("kids".to_string()))) {
                Some(Value::Array(kids)) => kids,
                _ => continue,
            };
            let mut hoisted = vec![];
            for kid in kids.iter() {
                match kid.get("El").and_then(|el| el.get("kids")).and_then(|k| k.as_array()) {
                    Some(inner) => hoisted.extend(inner.iter().cloned()),
                    None => hoisted.push(kid.clone()),
                }
            }
            *kids = hoisted;
            any |= self.attempt(candidate);
        }
        // unused components
        let mut sc: Scenario = serde_json::from_value(self.best.clone()).unwrap();
        for view in &mut sc.views {
            for comp in &mut view.tpl.comps {
                *comp = Node { k: comp.k.clone(), tag: comp.tag.clone(), ..Default::default() };
            }
        }
        any |= self.attempt(serde_json::to_value(&sc).unwrap());
        any
    }

    /// Frames are made similar to previous ones.
    fn calm(&mut self) -> bool {
        let mut any = false;
        let n = self.len(&vec![At::Key("steps".to_string())]);
        for i in 0..n {
            for field in ["value", "vp", "dt", "bad"] {
                let sc: Scenario = serde_json::from_value(self.best.clone()).unwrap();
                let mut candidate = sc.clone();
                let previous = sc.steps[..i].iter().rev().find_map(|s| match s {
                    Step::F(frame) => Some(frame.clone()),
                    _ => None,
                });
                if let Step::F(frame) = &mut candidate.steps[i] {
                    match (field, &previous) {
                        ("value", Some(previous)) if frame.bad == previous.bad => {
                            frame.value = previous.value.clone()
                        }
                        ("vp", Some(previous)) => frame.vp = previous.vp,
                        ("vp", None) => frame.vp = [800.0, 600.0],
                        ("dt", _) => frame.dt = 0,
                        ("bad", _) => {}
                        _ => continue,
                    }
                }
                if candidate != sc {
                    any |= self.attempt(serde_json::to_value(&candidate).unwrap());
                }
            }
        }
        any
    }
}

/// The smallest scenario found that still fails the same way.
pub fn shrink(
    sc: &Scenario,
    budget: Duration,
    same: &dyn Fn(&Scenario) -> bool,
) -> (Scenario, u64) {
    let mut shrinker = Shrinker {
        best: serde_json::to_value(sc).unwrap(),
        same,
        until: Instant::now() + budget,
        evals: 0,
    };
    let mut plain = sc.clone();
    plain.views.iter_mut().for_each(|view| view.style = 0);
    shrinker.attempt(serde_json::to_value(&plain).unwrap());
    loop {
        let mut any = shrinker.reduce(&vec![At::Key("steps".to_string())]);
        any |= shrinker.lists();
        any |= shrinker.fields();
        any |= shrinker.calm();
        if !any || shrinker.over() {
            break;
        }
    }
    (serde_json::from_value(shrinker.best).unwrap(), shrinker.evals)
}
