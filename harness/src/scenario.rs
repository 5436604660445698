//! A scenario is one exactly repeatable execution: sources of views, delivered values,
//! frame times, viewport sizes, input events and injected faults.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// How sources are written: by editors with their habits, or in the canonical form.
pub struct Style(Option<Rng>);

impl Style {
    pub fn new(seed: u64) -> Style {
        Style((seed != 0).then(|| Rng::new(seed)))
    }

    fn p(&mut self, p: f64) -> bool {
        self.0.as_mut().map(|rng| rng.p(p)).unwrap_or(false)
    }

    /// Space which is required.
    fn gap(&mut self) -> &'static str {
        match &mut self.0 {
            None => " ",
            Some(rng) => *rng.pick(&[" ", " ", " ", "  ", "\n    ", "\t", "\r\n  "]),
        }
    }

    /// One character of space.
    fn space(&mut self) -> &'static str {
        match &mut self.0 {
            None => " ",
            Some(rng) => *rng.pick(&[" ", " ", " ", " ", "\n", "\t"]),
        }
    }

    /// Space which is not required.
    fn ws(&mut self, canonical: &'static str) -> &'static str {
        match &mut self.0 {
            None => canonical,
            Some(rng) => *rng.pick(&["", "", " ", canonical, canonical, "\n", "\n  ", "\t"]),
        }
    }

    fn comment(&mut self, open: &str, text: &[&str], close: &str) -> String {
        if !self.p(0.07) {
            return String::new();
        }
        let text = self.0.as_mut().map(|rng| *rng.pick(text)).unwrap_or_default();
        format!("{open}{text}{close}")
    }

    fn html(&mut self) -> String {
        let text = ["", " note ", " <b>a</b> ", " {s0} ", "\n \" -\n", "body"];
        let comment = self.comment("<!--", &text, "-->");
        format!("{}{comment}{}", self.ws(""), self.ws(""))
    }

    fn css(&mut self, canonical: &'static str) -> String {
        let text = ["", " note ", " .a { color: red; } ", " { ", "\n \" *\n", "; }"];
        let comment = self.comment("/*", &text, "*/");
        format!("{}{comment}{}", self.ws(canonical), self.ws(""))
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Bind {
    pub path: Vec<String>,
    #[serde(default)]
    pub pipe: Vec<String>,
}

impl Bind {
    pub fn print(&self, style: &mut Style) -> String {
        let mut out = self.path.join(".");
        for pipe in &self.pipe {
            out.push_str(&format!("{}|{}", style.ws(" "), style.ws(" ")));
            out.push_str(pipe);
        }
        format!("{{{}{out}{}}}", style.ws(""), style.ws(""))
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Span {
    L(String),
    B(Bind),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Attr {
    Static(String, String),
    Bound(String, Vec<Span>),
    Tag(String, Bind),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Arg {
    Key(String),
    Event,
    B(Bind),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Kid {
    Text(Vec<Span>),
    El(Node),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Node {
    pub k: String,
    pub tag: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub link: Option<usize>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub vis: Option<(bool, Bind)>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rep: Option<(String, usize, Bind)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub alias: Vec<(String, Bind)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub attrs: Vec<Attr>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub on: Vec<(String, Vec<Arg>)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub kids: Vec<Kid>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Template {
    pub comps: Vec<Node>,
    pub body: Node,
}

fn spans(spans: &[Span], style: &mut Style, wrap: bool) -> String {
    spans
        .iter()
        .map(|span| match span {
            Span::L(s) if wrap && style.p(0.3) => wrapped(s, style),
            Span::L(s) => s.clone(),
            Span::B(b) => b.print(style),
        })
        .collect()
}

/// Text continued on the next line.
fn wrapped(text: &str, style: &mut Style) -> String {
    let words: Vec<&str> = text.split(' ').collect();
    let mut out = String::new();
    for (i, word) in words.iter().enumerate() {
        if i > 0 {
            let single = !word.is_empty() && !words[i - 1].is_empty();
            out.push_str(if single && style.p(0.5) { "\n    " } else { " " });
        }
        out.push_str(word);
    }
    out
}

impl Node {
    pub fn print(&self, out: &mut String, style: &mut Style) {
        let tag = if self.link.is_some() { "link" } else { self.tag.as_str() };
        out.push('<');
        out.push_str(tag);
        if let Some(link) = self.link {
            out.push_str(&format!("{}href=\"#comp{link}\"", style.gap()));
        } else {
            out.push_str(&format!("{}k=\"{}\"", style.gap(), self.k));
        }
        if let Some((yes, bind)) = &self.vis {
            let name = if *yes { "?" } else { "!" };
            out.push_str(&format!("{}{name}=\"{}\"", style.gap(), bind.print(style)));
        }
        if let Some((name, count, bind)) = &self.rep {
            let gap = style.gap();
            out.push_str(&format!("{gap}*{name}=\"{count}{}{}\"", style.ws(" "), bind.print(style)));
        }
        for (name, bind) in &self.alias {
            out.push_str(&format!("{}+{name}=\"{}\"", style.gap(), bind.print(style)));
        }
        for attr in &self.attrs {
            out.push_str(style.gap());
            match attr {
                Attr::Static(k, v) => out.push_str(&format!("{k}=\"{v}\"")),
                Attr::Bound(k, v) => out.push_str(&format!("@{k}=\"{}\"", spans(v, style, false))),
                Attr::Tag(k, b) => out.push_str(&format!("#{k}=\"{}\"", b.print(style))),
            }
        }
        for (event, args) in &self.on {
            out.push_str(&format!("{}^{event}=\"", style.gap()));
            for (i, arg) in args.iter().enumerate() {
                if i > 0 {
                    out.push_str(style.gap());
                }
                match arg {
                    Arg::Key(k) => out.push_str(k),
                    Arg::Event => out.push_str("$event"),
                    Arg::B(b) => out.push_str(&b.print(style)),
                }
            }
            out.push('"');
        }
        if tag == "link" || is_void(tag) {
            out.push_str(if style.p(0.3) { ">" } else { "/>" });
            return;
        }
        if style.p(0.2) {
            out.push_str(style.gap());
        }
        out.push('>');
        let mut after_text = false;
        for kid in &self.kids {
            if !after_text {
                out.push_str(&style.html());
            }
            match kid {
                Kid::Text(text) => out.push_str(&spans(text, style, true)),
                Kid::El(node) => node.print(out, style),
            }
            after_text = matches!(kid, Kid::Text(_));
        }
        if !after_text {
            out.push_str(&style.html());
        } else if style.p(0.3) {
            out.push_str("\n  ");
        }
        out.push_str(&format!("</{tag}>"));
    }
}

const HEAD: [&str; 9] = [
    "<link rel=\"stylesheet\" href=\"main.css\"/>",
    "<link href=\"#comp0\"/>",
    "<meta charset=\"utf-8\">",
    "<head><title>{title}</title></head>",
    "<script> if (a < b) { c(\"</b>\"); } </script>",
    "<template id=\"unused\"></template>",
    "<template>text</template>",
    "<template id=\"other\"><b>1</b><i>{a}</i></template>",
    "<template id=\"loop\"><link href=\"#loop\"/></template>",
];

impl Template {
    pub fn print(&self, style: &mut Style) -> String {
        let mut out = style.html();
        out.push_str("<html>");
        for (i, comp) in self.comps.iter().enumerate() {
            out.push_str(&style.html());
            if style.p(0.15) {
                out.push_str(style.0.as_mut().unwrap().pick(&HEAD));
            }
            out.push_str(&format!("<template{}id=\"comp{i}\">", style.gap()));
            out.push_str(&style.html());
            comp.print(&mut out, style);
            out.push_str(&style.html());
            out.push_str("</template>");
        }
        while style.p(0.15) {
            out.push_str(&style.html());
            out.push_str(style.0.as_mut().unwrap().pick(&HEAD));
        }
        out.push_str(&style.html());
        self.body.print(&mut out, style);
        out.push_str(&style.html());
        out.push_str("</html>");
        out.push_str(&style.html());
        out
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum V {
    Px(f32),
    Pct(f32),
    Em(f32),
    Rem(f32),
    Vw(f32),
    Vh(f32),
    Vmin(f32),
    Vmax(f32),
    Zero,
    Num(f32),
    Col([u8; 4]),
    Kw(String),
    S(String),
    Var(String),
    Rgb(u8, u8, u8),
    /// rgb or rgba with any arguments
    Fn(String, Vec<V>),
    Ms(f32),
    Url(String),
    T(f32),
}

impl V {
    pub fn print(&self) -> String {
        match self {
            V::Px(v) => format!("{v}px"),
            V::Pct(v) => format!("{v}%"),
            V::Em(v) => format!("{v}em"),
            V::Rem(v) => format!("{v}rem"),
            V::Vw(v) => format!("{v}vw"),
            V::Vh(v) => format!("{v}vh"),
            V::Vmin(v) => format!("{v}vmin"),
            V::Vmax(v) => format!("{v}vmax"),
            V::Zero => "0".to_string(),
            V::Num(v) => format!("{v}"),
            V::Col([r, g, b, 255]) => format!("#{r:02x}{g:02x}{b:02x}"),
            V::Col([r, g, b, a]) => format!("#{r:02x}{g:02x}{b:02x}{a:02x}"),
            V::Kw(s) => s.clone(),
            V::S(s) => format!("\"{s}\""),
            V::Var(s) => format!("var({s})"),
            V::Rgb(r, g, b) => format!("rgb({r}, {g}, {b})"),
            V::Url(s) => format!("url(\"{s}\")"),
            V::T(v) => format!("{v}s"),
            V::Ms(v) => format!("{v}ms"),
            V::Fn(name, args) => {
                let args: Vec<String> = args.iter().map(|v| v.print()).collect();
                format!("{name}({})", args.join(", "))
            }
        }
    }
}

/// Variable or property with a list of layers.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Decl(pub String, pub Vec<Vec<V>>);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Simple {
    All,
    Type(String),
    Class(String),
    Id(String),
    Attr(String, String, String),
    Pseudo(String),
}

/// Compounds with the combinators before them (the first one has none).
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Complex(pub Vec<(char, Vec<Simple>)>);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Rule {
    pub sel: Vec<Complex>,
    pub decls: Vec<Decl>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Keyframes {
    pub name: String,
    pub frames: Vec<(u32, Vec<Decl>)>,
    /// the first and the last steps are written as words
    #[serde(default)]
    pub words: bool,
    /// tenths of percents of the steps, which are rounded down
    #[serde(default)]
    pub part: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Sheet {
    pub rules: Vec<Rule>,
    #[serde(default)]
    pub keyframes: Vec<Keyframes>,
}

pub fn print_decls(decls: &[Decl], style: &mut Style) -> String {
    let mut out = String::new();
    for Decl(name, layers) in decls {
        out.push_str(name);
        out.push_str(&format!("{}:{}", style.ws(""), style.ws(" ")));
        for (i, values) in layers.iter().enumerate() {
            if i > 0 {
                out.push_str(&format!("{},{}", style.ws(""), style.ws(" ")));
            }
            for (i, v) in values.iter().enumerate() {
                if i > 0 {
                    out.push_str(style.space());
                }
                out.push_str(&v.written(style));
            }
        }
        out.push_str(&format!("{};{}", style.ws(""), style.css(" ")));
    }
    out
}

impl V {
    fn written(&self, style: &mut Style) -> String {
        let text = self.print();
        if style.p(0.8) {
            return text;
        }
        match self {
            V::Col(_) => text.to_uppercase(),
            V::Px(_) | V::Pct(_) | V::Num(_) | V::T(_) | V::Rem(_) | V::Em(_) => {
                if let Some(rest) = text.strip_prefix("0.") {
                    format!(".{rest}")
                } else if let Some(rest) = text.strip_prefix("-0.") {
                    format!("-.{rest}")
                } else {
                    text
                }
            }
            V::Fn(..) | V::Rgb(..) => text.replace(", ", if style.p(0.5) { "," } else { ",\n " }),
            _ => text,
        }
    }
}

impl Complex {
    pub fn print(&self, style: &mut Style) -> String {
        let mut out = String::new();
        for (i, (comb, compound)) in self.0.iter().enumerate() {
            if i > 0 {
                match comb {
                    ' ' => out.push_str(style.gap()),
                    comb => out.push_str(&format!("{}{comb}{}", style.ws(" "), style.ws(" "))),
                }
            }
            for simple in compound {
                match simple {
                    Simple::All => out.push('*'),
                    Simple::Type(s) => out.push_str(s),
                    Simple::Class(s) => out.push_str(&format!(".{s}")),
                    Simple::Id(s) => out.push_str(&format!("#{s}")),
                    Simple::Pseudo(s) => out.push_str(&format!(":{s}")),
                    Simple::Attr(name, op, value) => {
                        if op.is_empty() {
                            out.push_str(&format!("[{name}]"))
                        } else {
                            out.push_str(&format!("[{name}{op}\"{value}\"]"))
                        }
                    }
                }
            }
        }
        out
    }
}

impl Sheet {
    pub fn print(&self, style: &mut Style) -> String {
        let mut out = style.css("");
        for rule in &self.rules {
            for (i, sel) in rule.sel.iter().enumerate() {
                if i > 0 {
                    out.push_str(&format!("{},{}", style.ws(""), style.ws(" ")));
                }
                out.push_str(&sel.print(style));
            }
            out.push_str(&format!("{}{{{}", style.ws(" "), style.css(" ")));
            out.push_str(&print_decls(&rule.decls, style));
            out.push_str(&format!("}}{}", style.css("\n")));
        }
        for animation in &self.keyframes {
            let gap = style.gap();
            out.push_str(&format!("@keyframes{gap}{}{}{{{}", animation.name, style.ws(" "), style.css("\n")));
            for (step, decls) in &animation.frames {
                let step = match step {
                    0 if animation.words => "from".to_string(),
                    100 if animation.words => "to".to_string(),
                    step if animation.part > 0 && *step < 100 => format!("{step}.{}%", animation.part),
                    step => format!("{step}%"),
                };
                out.push_str(&format!("  {step}{}{{{}", style.ws(" "), style.css(" ")));
                out.push_str(&print_decls(decls, style));
                out.push_str(&format!("}}{}", style.css("\n")));
            }
            out.push_str(&format!("}}{}", style.css("\n")));
        }
        out
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Ev {
    Move(f32, f32),
    /// Moves pointer to the n-th shown element (in the last known geometry).
    Aim(u32, f32, f32),
    /// Moves pointer to the n-th element that was shown with the marker (in the last known geometry).
    Down(bool),
    Up(bool),
    Wheel(f32, f32),
    KeyDown(u8),
    KeyUp(u8),
    Char(char),
    Unknown,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Frame {
    /// index of view
    #[serde(default)]
    pub view: usize,
    /// simulated time since the last frame, microseconds
    pub dt: u64,
    pub vp: [f32; 2],
    pub value: Value,
    /// value was corrupted by the data channel
    #[serde(default)]
    pub bad: bool,
    #[serde(default)]
    pub ev: Vec<Ev>,
    #[serde(default)]
    pub faults: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Tear {
    /// cut at the position (part of 1.0) of source
    Cut(f64),
    /// range is lost
    Drop(f64, usize),
    /// range is overwritten by byte
    Fill(f64, usize, char),
    /// tail is replaced by the other version of the source
    Mix(f64),
    /// range is written twice
    Twice(f64, usize),
    /// range between delimiters is lost
    Block(f64, usize),
    /// content of the element or block is lost
    Hollow(f64),
    /// range is overwritten by the one written at the other place
    Misplaced(f64, f64, usize),
    None,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
    F(Frame),
    /// The view is dropped and created again from the complete sources.
    Restart(usize),
    /// Sources damaged by a partial write are loaded: view, template damage, stylesheet damage.
    Torn(usize, Tear, Tear),
    /// Interaction and time-based effects are settled, the view compared with the fresh one.
    Check,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Source {
    pub tpl: Template,
    pub css: Sheet,
    /// configuration of the simulated fonts
    pub font: f32,
    /// which of transformers registered under the same names
    pub tr: u8,
    /// how the text is written, canonically if zero
    #[serde(default)]
    pub style: u64,
}

impl Source {
    pub fn html(&self) -> String {
        self.tpl.print(&mut Style::new(self.style))
    }

    pub fn css(&self) -> String {
        self.css.print(&mut Style::new(self.style))
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    /// seed of hash tables
    pub hash: u64,
    pub views: Vec<Source>,
    pub steps: Vec<Step>,
    /// seeds of hash tables for other runs (C16)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub hashes: Vec<u64>,
    /// how many events are delivered by each update (C12)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub parts: Vec<usize>,
    /// use one thread per view, run under the control of scheduler (C19)
    #[serde(default)]
    pub threads: bool,
}

/// Elements of such tags have no content.
pub fn is_void(tag: &str) -> bool {
    matches!(tag, "img" | "input" | "br" | "hr" | "wbr" | "area" | "embed")
}
