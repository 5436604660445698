//! Reference of bindings: what a template displays for a value, computed from scratch.
use crate::scenario::*;
use crate::sim::{text, transform, translate, truthy, El, Snap};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type Scope = HashMap<String, Vec<String>>;

pub fn resolve(scope: &Scope, path: &[String]) -> Vec<String> {
    match scope.get(&path[0]) {
        Some(head) => head.iter().chain(&path[1..]).cloned().collect(),
        None => path.to_vec(),
    }
}

pub fn lookup<'v>(value: &'v Value, path: &[String]) -> &'v Value {
    let mut at = value;
    for token in path {
        at = match at {
            Value::Object(object) => object.get(token).unwrap_or(&Value::Null),
            Value::Array(array) => token
                .parse::<usize>()
                .ok()
                .and_then(|i| array.get(i))
                .unwrap_or(&Value::Null),
            _ => return &Value::Null,
        };
    }
    at
}

pub fn eval(bind: &Bind, scope: &Scope, value: &Value, tr: u8) -> Value {
    let mut result = lookup(value, &resolve(scope, &bind.path)).clone();
    for name in &bind.pipe {
        result = transform(tr, name, result);
    }
    result
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Plain,
    Cond,
    Rep,
}

/// Element as written in the template (components are included).
#[derive(Debug)]
pub struct Info {
    pub k: String,
    pub on: Vec<(String, Vec<Arg>)>,
    pub scope: Scope,
}

impl Info {
    pub fn args(&self, event: &str) -> Option<&[Arg]> {
        // the last one of listeners with the same name
        self.on.iter().rev().find(|(name, _)| name == event).map(|(_, args)| args.as_slice())
    }
}

#[derive(Debug)]
pub struct Exp {
    pub kind: Kind,
    pub k: String,
    pub tag: String,
    pub text: Option<String>,
    pub attrs: BTreeMap<String, String>,
    /// image of element displaying the content of img
    pub src: Option<String>,
    pub info: Option<Rc<Info>>,
    pub kids: Vec<Exp>,
    /// not shown, only if all of elements are requested
    pub hidden: bool,
    pub hidden_copy: bool,
}

impl Exp {
    fn hide(mut self, copy: bool) -> Exp {
        self.hidden = true;
        self.hidden_copy |= copy;
        self.kids = self.kids.into_iter().map(|kid| kid.hide(copy)).collect();
        self
    }
}

fn content(spans: &[Span], scope: &Scope, value: &Value, tr: u8, translated: bool) -> String {
    spans
        .iter()
        .map(|span| match span {
            Span::L(s) if translated => translate(tr, s),
            Span::L(s) => s.clone(),
            Span::B(bind) => text(&eval(bind, scope, value, tr)),
        })
        .collect()
}

pub struct Expect<'a> {
    pub tpl: &'a Template,
    pub value: &'a Value,
    pub tr: u8,
    /// with elements which are not shown
    pub all: bool,
}

impl Expect<'_> {
    pub fn tree(&self) -> Exp {
        self.element(&self.tpl.body, &Scope::new(), Kind::Plain)
    }

    fn element(&self, node: &Node, scope: &Scope, kind: Kind) -> Exp {
        let mut attrs = BTreeMap::new();
        attrs.insert("k".to_string(), node.k.clone());
        for attr in &node.attrs {
            match attr {
                Attr::Static(k, v) => {
                    attrs.insert(k.clone(), v.clone());
                }
                Attr::Bound(k, spans) => {
                    attrs.insert(k.clone(), content(spans, scope, self.value, self.tr, false));
                }
                Attr::Tag(k, bind) => {
                    if truthy(&eval(bind, scope, self.value, self.tr)) {
                        attrs.insert(k.clone(), k.clone());
                    } else {
                        attrs.remove(k);
                    }
                }
            }
        }
        let mut kids = vec![];
        if node.tag == "img" {
            kids.push(Exp {
                kind: Kind::Plain,
                k: String::new(),
                tag: String::new(),
                text: None,
                attrs: BTreeMap::new(),
                src: Some(attrs.get("src").cloned().unwrap_or_default()),
                info: None,
                kids: vec![],
                hidden: false,
                hidden_copy: false,
            });
        }
        for kid in &node.kids {
            match kid {
                Kid::Text(spans) => kids.push(Exp {
                    kind: Kind::Plain,
                    k: String::new(),
                    tag: String::new(),
                    text: Some(content(spans, scope, self.value, self.tr, true)),
                    attrs: BTreeMap::new(),
                    src: None,
                    info: None,
                    kids: vec![],
                    hidden: false,
                    hidden_copy: false,
                }),
                Kid::El(node) => self.kid(node, scope, &mut kids),
            }
        }
        Exp {
            kind,
            k: node.k.clone(),
            tag: node.tag.clone(),
            text: None,
            attrs,
            src: None,
            info: Some(Rc::new(Info {
                k: node.k.clone(),
                on: node.on.clone(),
                scope: scope.clone(),
            })),
            kids,
            hidden: false,
            hidden_copy: false,
        }
    }

    fn kid(&self, node: &Node, scope: &Scope, kids: &mut Vec<Exp>) {
        let included;
        let node = match node.link {
            Some(index) => {
                included = include(node, &self.tpl.comps[index]);
                &included
            }
            None => node,
        };
        let mut scope = scope.clone();
        for (name, bind) in &node.alias {
            let path = resolve(&scope, &bind.path);
            scope.insert(name.clone(), path);
        }
        if let Some((yes, bind)) = &node.vis {
            if truthy(&eval(bind, &scope, self.value, self.tr)) == *yes {
                kids.push(self.element(node, &scope, Kind::Cond));
            } else if self.all {
                kids.push(self.element(node, &scope, Kind::Cond).hide(false));
            }
        } else if let Some((name, count, bind)) = &node.rep {
            let shown = match eval(bind, &scope, self.value, self.tr) {
                Value::Array(items) => items.len().min(*count),
                _ => 0,
            };
            let path = resolve(&scope, &bind.path);
            for index in 0..if self.all { *count } else { shown } {
                let mut path = path.clone();
                path.push(index.to_string());
                let mut scope = scope.clone();
                scope.insert(name.clone(), path);
                let exp = self.element(node, &scope, Kind::Rep);
                kids.push(if index < shown { exp } else { exp.hide(true) });
            }
        } else {
            kids.push(self.element(node, &scope, Kind::Plain));
        }
    }
}

/// Element of component with everything specified by the link.
pub fn include(link: &Node, comp: &Node) -> Node {
    let mut node = comp.clone();
    let mut alias = link.alias.clone();
    alias.extend(node.alias);
    node.alias = alias;
    let mut attrs = link.attrs.clone();
    attrs.extend(node.attrs);
    node.attrs = attrs;
    let mut on = link.on.clone();
    on.extend(node.on);
    node.on = on;
    node.vis = link.vis.clone().or(node.vis);
    node.rep = link.rep.clone().or(node.rep);
    node
}

#[derive(Debug)]
pub enum Wrong {
    /// structure of children, kinds that are involved
    Cond(String),
    Rep(String),
    Structure(String),
    Content(String),
}

fn seq(kids: &[(String, Kind)]) -> String {
    let names: Vec<&str> = kids.iter().map(|(k, _)| k.as_str()).collect();
    format!("[{}]", names.join(" "))
}

/// Compares the shown tree with the expected one.
pub fn compare(exp: &Exp, snap: &Snap, kinds: &HashMap<String, Kind>, wrong: &mut Vec<Wrong>) {
    compare_at(exp, snap, 0, kinds, wrong);
}

fn name(e: &El) -> String {
    if e.text.is_some() {
        "#text".to_string()
    } else {
        e.k.clone()
    }
}

fn compare_at(
    exp: &Exp,
    snap: &Snap,
    at: usize,
    kinds: &HashMap<String, Kind>,
    wrong: &mut Vec<Wrong>,
) {
    let e = &snap.0[at];
    let path = || snap.path(at);
    if e.text != exp.text {
        wrong.push(Wrong::Content(format!(
            "{} text is {:?}, expected {:?}",
            path(),
            e.text,
            exp.text
        )));
    }
    if exp.src.is_some() {
        let image = e.look.layers.first().and_then(|layer| layer.image.clone());
        if image != exp.src {
            wrong.push(Wrong::Content(format!(
                "{} image is {image:?}, expected {:?}",
                path(),
                exp.src
            )));
        }
    } else if exp.text.is_none() {
        for (key, value) in &exp.attrs {
            if e.attrs.get(key) != Some(value) {
                wrong.push(Wrong::Content(format!(
                    "{} attribute {key} is {:?}, expected {value:?}",
                    path(),
                    e.attrs.get(key)
                )));
            }
        }
        for (key, value) in &e.attrs {
            if !exp.attrs.contains_key(key) {
                wrong.push(Wrong::Content(format!(
                    "{} attribute {key} is {value:?}, expected none",
                    path()
                )));
            }
        }
    }
    let actual: Vec<(String, Kind)> = e
        .kids
        .iter()
        .map(|kid| {
            let name = name(&snap.0[*kid]);
            let kind = kinds.get(&name).copied().unwrap_or(Kind::Plain);
            (name, kind)
        })
        .collect();
    let expected: Vec<(String, Kind)> = exp
        .kids
        .iter()
        .map(|kid| {
            let name = if kid.text.is_some() { "#text".to_string() } else { kid.k.clone() };
            (name, kid.kind)
        })
        .collect();
    let names = |seq: &[(String, Kind)], skip: Option<Kind>| -> Vec<String> {
        seq.iter()
            .filter(|(_, kind)| Some(*kind) != skip)
            .map(|(name, _)| name.clone())
            .collect()
    };
    if names(&actual, None) == names(&expected, None) {
        for (kid, exp) in e.kids.iter().zip(&exp.kids) {
            compare_at(exp, snap, *kid, kinds, wrong);
        }
        return;
    }
    let message = format!(
        "{} shows {}, expected {}",
        path(),
        seq(&actual),
        seq(&expected)
    );
    let cond = names(&actual, Some(Kind::Rep)) != names(&expected, Some(Kind::Rep));
    let rep = names(&actual, Some(Kind::Cond)) != names(&expected, Some(Kind::Cond));
    if cond {
        wrong.push(Wrong::Cond(message.clone()));
    }
    if rep {
        wrong.push(Wrong::Rep(message.clone()));
    }
    if !cond && !rep {
        wrong.push(Wrong::Structure(message));
    }
}

/// Kinds of elements by their markers.
pub fn kinds(tpl: &Template) -> HashMap<String, Kind> {
    fn visit(node: &Node, tpl: &Template, out: &mut HashMap<String, Kind>) {
        for kid in &node.kids {
            if let Kid::El(kid) = kid {
                let comp = kid.link.map(|index| &tpl.comps[index]);
                let k = comp.map(|comp| &comp.k).unwrap_or(&kid.k);
                let cond = kid.vis.is_some() || comp.map(|c| c.vis.is_some()).unwrap_or(false);
                let rep = kid.rep.is_some() || comp.map(|c| c.rep.is_some()).unwrap_or(false);
                let kind = if cond {
                    Kind::Cond
                } else if rep {
                    Kind::Rep
                } else {
                    Kind::Plain
                };
                if kind != Kind::Plain || !out.contains_key(k) {
                    out.insert(k.clone(), kind);
                }
                if kid.link.is_none() {
                    visit(kid, tpl, out);
                }
            }
        }
    }
    let mut out = HashMap::new();
    visit(&tpl.body, tpl, &mut out);
    for comp in &tpl.comps {
        visit(comp, tpl, &mut out);
    }
    out
}

/// Listeners of the shown elements (the structure must be compared before).
pub fn attach(exp: &Exp, snap: &Snap, out: &mut HashMap<u64, Rc<Info>>) {
    fn visit(exp: &Exp, snap: &Snap, at: usize, out: &mut HashMap<u64, Rc<Info>>) {
        let e = &snap.0[at];
        if let Some(info) = &exp.info {
            out.insert(e.node, info.clone());
        }
        for (kid, exp) in e.kids.iter().zip(&exp.kids) {
            visit(exp, snap, *kid, out);
        }
    }
    visit(exp, snap, 0, out);
}

/// Templates use a path either as an array (of repeat) or as an object: such usage of the same path
/// is not a structure of any value.
pub fn conflict(tpl: &Template) -> bool {
    struct Paths<'a> {
        tpl: &'a Template,
        arrays: HashSet<Vec<String>>,
        objects: HashSet<Vec<String>>,
    }
    impl Paths<'_> {
        fn add(&mut self, path: &[String]) {
            // what is true for an item is true for all of them
            let item = |token: &String| match token.parse::<usize>() {
                Ok(_) => "0".to_string(),
                Err(_) => token.clone(),
            };
            let path: Vec<String> = path.iter().map(item).collect();
            for (i, token) in path.iter().enumerate() {
                let prefix = path[..i].to_vec();
                if token.parse::<usize>().is_ok() {
                    self.arrays.insert(prefix);
                } else {
                    self.objects.insert(prefix);
                }
            }
        }

        fn bind(&mut self, scope: &Scope, bind: &Bind) {
            self.add(&resolve(scope, &bind.path));
        }

        fn spans(&mut self, scope: &Scope, spans: &[Span]) {
            for span in spans {
                if let Span::B(bind) = span {
                    self.bind(scope, bind);
                }
            }
        }

        fn element(&mut self, node: &Node, scope: &Scope) {
            for attr in &node.attrs {
                match attr {
                    Attr::Static(..) => {}
                    Attr::Bound(_, spans) => self.spans(scope, spans),
                    Attr::Tag(_, bind) => self.bind(scope, bind),
                }
            }
            for (_, args) in &node.on {
                for arg in args {
                    if let Arg::B(bind) = arg {
                        self.bind(scope, bind);
                    }
                }
            }
            for kid in &node.kids {
                match kid {
                    Kid::Text(spans) => self.spans(scope, spans),
                    Kid::El(kid) => {
                        let included;
                        let kid = match kid.link {
                            Some(index) => {
                                included = include(kid, &self.tpl.comps[index]);
                                &included
                            }
                            None => kid,
                        };
                        let mut scope = scope.clone();
                        for (name, bind) in &kid.alias {
                            let path = resolve(&scope, &bind.path);
                            self.add(&path);
                            scope.insert(name.clone(), path);
                        }
                        if let Some((_, bind)) = &kid.vis {
                            self.bind(&scope, bind);
                        }
                        if let Some((name, _, bind)) = &kid.rep {
                            let mut path = resolve(&scope, &bind.path);
                            path.push("0".to_string());
                            self.add(&path);
                            // the same for all of items
                            scope.insert(name.clone(), path);
                        }
                        self.element(kid, &scope);
                    }
                }
            }
        }
    }
    let mut paths = Paths { tpl, arrays: HashSet::new(), objects: HashSet::new() };
    paths.element(&tpl.body, &Scope::new());
    paths.arrays.iter().any(|path| paths.objects.contains(path))
}
