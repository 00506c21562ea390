//! Documents around one subject each: the attributes that belong together, often present, mostly sensible
//! and similar to each other, so that conditions over several attributes and elements are met.
use crate::docs;
use crate::rng::Rng;

const HEAD: &str = "<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"";

struct F<'a> {
    r: &'a mut Rng,
    s: String,
    /// the few values every attribute takes, so that elements are often equal
    few: bool,
    n: usize,
}

impl<'a> F<'a> {
    fn num(&mut self) -> String {
        if self.few {
            return (*self.r.pick(&["0", "1", "2", "10"])).into();
        }
        docs::number_any(self.r)
    }
    fn len(&mut self) -> String {
        if self.r.chance(75) {
            return self.num();
        }
        let n = self.num();
        format!("{}{}", n, self.r.pick(&["%", "%", "px", "mm", "em", "in"]))
    }
    fn ts(&mut self) -> String {
        if self.r.chance(30) {
            return docs::transform_any(self.r);
        }
        (*self.r.pick(&["translate(1 2)", "scale(2)", "scale(2 2)", "rotate(30)", "matrix(2 0 0 2 1 1)", "scale(1 3)", "translate(10)", "matrix(1 0 0 1 0 0)", "scale(-1)", "skewX(5)", "translate(1) scale(.5)"])).into()
    }
    fn color(&mut self) -> &'static str {
        *self.r.pick(&["red", "#f00", "#00ff00", "none", "currentColor", "rgb(10%,0%,0%)"])
    }
    /// Attributes with a chance each: (name, percent, kind)
    fn attrs(&mut self, spec: &[(&str, u32, &str)], link: &str, ids: usize) {
        for &(name, p, kind) in spec {
            if !self.r.chance(p) {
                continue;
            }
            let v = match kind {
                "l" => self.len(),
                "n" => self.num(),
                "t" => self.ts(),
                "c" => self.color().to_string(),
                "a" => (*self.r.pick(&["0", "1", ".5", "0.3", "1.5", "-1"])).to_string(),
                "ll" => (0..1 + self.r.below(5)).map(|_| self.len()).collect::<Vec<_>>().join(" "),
                "h" => format!("#{}{}", link, self.r.below(ids.max(1))),
                "u" => format!("url(#{}{})", link, self.r.below(ids.max(1))),
                "p" => {
                    if self.r.chance(60) { format!("url(#{}{})", link, self.r.below(ids.max(1))) } else { self.color().to_string() }
                }
                "units" => (*self.r.pick(&["userSpaceOnUse", "objectBoundingBox"])).to_string(),
                k => {
                    let w: Vec<&str> = k.split('|').collect();
                    self.r.pick(&w).to_string()
                }
            };
            self.s.push_str(&format!(" {}=\"{}\"", name, v));
        }
    }
    fn id(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{}{}", p, self.n)
    }
    fn path(&mut self) -> String {
        if self.r.chance(50) { docs::path_any(self.r) } else { (*self.r.pick(&["M 10 20 L 30 40", "M10 20 L30 40 L50 60 z", "M0 0H5V5H0z", "M 1 1"])).into() }
    }
    fn shape(&mut self, extra: &[(&str, u32, &str)], link: &str, ids: usize) {
        let e = *self.r.pick(&["rect", "rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "path"]);
        self.s.push_str(&format!("<{}", e));
        if self.r.chance(40) {
            let i = self.id("s");
            self.s.push_str(&format!(" id=\"{}\"", i));
        }
        match e {
            "rect" => self.attrs(&[("x", 60, "l"), ("y", 60, "l"), ("width", 90, "l"), ("height", 90, "l"), ("rx", 25, "l"), ("ry", 20, "l")], "", 0),
            "circle" => self.attrs(&[("cx", 60, "l"), ("cy", 60, "l"), ("r", 90, "l")], "", 0),
            "ellipse" => self.attrs(&[("cx", 60, "l"), ("cy", 60, "l"), ("rx", 90, "l"), ("ry", 90, "l")], "", 0),
            "line" => self.attrs(&[("x1", 70, "l"), ("y1", 70, "l"), ("x2", 70, "l"), ("y2", 70, "l")], "", 0),
            "path" => {
                if self.r.chance(92) {
                    let d = self.path();
                    self.s.push_str(&format!(" d=\"{}\"", d));
                }
            }
            _ => {
                if self.r.chance(92) {
                    let n = self.r.below(7);
                    let v: Vec<String> = (0..n).map(|_| self.num()).collect();
                    self.s.push_str(&format!(" points=\"{}\"", v.join(" ")));
                }
            }
        }
        self.attrs(extra, link, ids);
        self.s.push_str("/>");
    }
}

const STROKE: &[(&str, u32, &str)] = &[
    ("transform", 35, "t"), ("stroke-width", 25, "l"), ("stroke-dasharray", 20, "ll"), ("stroke-dashoffset", 15, "l"),
    ("stroke-miterlimit", 10, "n"), ("stroke-linecap", 10, "butt|round|square"), ("opacity", 15, "a"), ("fill-opacity", 15, "a"), ("stroke-opacity", 15, "a"),
    ("fill-rule", 10, "nonzero|evenodd"), ("display", 4, "none|inline"), ("visibility", 4, "hidden|visible"),
];

fn gradients(f: &mut F) {
    let n = 1 + f.r.below(6);
    let defs = f.r.chance(80);
    if defs {
        f.s.push_str("<defs>");
    }
    for i in 0..n {
        let e = *f.r.pick(&["linearGradient", "radialGradient"]);
        f.s.push_str(&format!("<{} id=\"g{}\"", e, i));
        let at: &[(&str, u32, &str)] = if e == "linearGradient" || f.r.chance(5) {
            &[("x1", 50, "l"), ("y1", 50, "l"), ("x2", 50, "l"), ("y2", 50, "l")]
        } else {
            &[("cx", 60, "l"), ("cy", 60, "l"), ("r", 60, "l"), ("fx", 45, "l"), ("fy", 45, "l")]
        };
        f.attrs(at, "", 0);
        f.attrs(&[("gradientUnits", 50, "units"), ("gradientTransform", 50, "t"), ("spreadMethod", 30, "pad|reflect|repeat"), ("xlink:href", 45, "h")], "g", n);
        let k = if f.r.chance(45) { 0 } else { f.r.below(5) };
        if k == 0 && f.r.chance(70) {
            f.s.push_str("/>");
            continue;
        }
        f.s.push('>');
        for _ in 0..k {
            f.s.push_str("<stop");
            f.attrs(&[("offset", 92, "0|0.5|1|50%|0%|100%|.2|-1|2|30%"), ("stop-color", 85, "red|#f00|#00ff00|currentColor|rgb(10%,0%,0%)|lime|inherit"), ("stop-opacity", 35, "a")], "", 0);
            f.s.push_str(if f.r.chance(5) { "> </stop>" } else { "/>" });
        }
        f.s.push_str(&format!("</{}>", e));
    }
    if defs {
        f.s.push_str("</defs>");
    }
    for _ in 0..1 + f.r.below(4) {
        f.shape(&[("fill", 80, "p"), ("stroke", 40, "p")], "g", n);
        if f.r.chance(40) {
            let k = f.s.len() - 2;
            f.s.truncate(k);
            f.attrs(STROKE, "", 0);
            f.s.push_str("/>");
        }
    }
}

fn servers(f: &mut F) {
    let n = 2 + f.r.below(5);
    let same = f.r.chance(50);
    let kinds = ["clipPath", "mask", "pattern", "marker", "filter", "symbol"];
    let one = *f.r.pick(&kinds);
    let used: Vec<&str> = (0..n).map(|_| if same { one } else { *f.r.pick(&kinds) }).collect();
    f.s.push_str("<defs>");
    for (i, e) in used.iter().enumerate() {
        f.s.push_str(&format!("<{} id=\"p{}\"", e, i));
        match *e {
            "clipPath" => f.attrs(&[("clipPathUnits", 40, "units"), ("clip-path", 15, "u"), ("transform", 25, "t")], "p", n),
            "mask" => f.attrs(&[("maskUnits", 30, "units"), ("maskContentUnits", 30, "units"), ("x", 30, "l"), ("y", 30, "l"), ("width", 50, "l"), ("height", 50, "l"), ("mask", 10, "u")], "p", n),
            "pattern" => f.attrs(&[("patternUnits", 50, "units"), ("patternContentUnits", 30, "units"), ("patternTransform", 40, "t"), ("x", 30, "l"), ("y", 30, "l"), ("width", 80, "l"), ("height", 80, "l"), ("xlink:href", 30, "h"), ("viewBox", 25, "0 0 1 1|0 0 10 10")], "p", n),
            "marker" => f.attrs(&[("markerWidth", 50, "l"), ("markerHeight", 50, "l"), ("refX", 40, "l"), ("refY", 40, "l"), ("orient", 40, "auto|0|45"), ("markerUnits", 40, "strokeWidth|userSpaceOnUse")], "p", n),
            "filter" => f.attrs(&[("filterUnits", 40, "units"), ("primitiveUnits", 20, "units"), ("x", 30, "l"), ("width", 40, "l"), ("xlink:href", 15, "h")], "p", n),
            _ => f.attrs(&[("viewBox", 60, "0 0 1 1|0 0 10 10"), ("preserveAspectRatio", 30, "xMidYMid|none|xMinYMin slice")], "p", n),
        }
        f.s.push('>');
        let k = f.r.below(3);
        for _ in 0..k {
            if *e == "filter" {
                let p = *f.r.pick(&["feGaussianBlur", "feOffset", "feColorMatrix", "feFlood", "feBlend", "feMerge"]);
                f.s.push_str(&format!("<{}", p));
                f.attrs(&[("stdDeviation", 60, "0|1|2 2|-1|0 0"), ("dx", 25, "n"), ("in", 40, "SourceGraphic|a|BackgroundImage"), ("result", 40, "a|b"), ("flood-opacity", 15, "a"), ("type", 40, "matrix|saturate|hueRotate|luminanceToAlpha"), ("values", 40, "0|1|1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0")], "", 0);
                f.s.push_str("/>");
            } else if f.r.chance(20) {
                f.s.push_str("<use");
                let to = if f.r.chance(70) { "s" } else { "p" };
                f.attrs(&[("xlink:href", 95, "h"), ("x", 20, "l"), ("clip-path", 10, "u")], to, n);
                f.s.push_str("/>");
            } else {
                f.shape(&[("fill", 30, "p"), ("clip-path", 10, "u"), ("mask", 5, "u"), ("filter", 5, "u"), ("transform", 20, "t")], "p", n);
            }
        }
        f.s.push_str(&format!("</{}>", e));
    }
    f.s.push_str("</defs>");
    for _ in 0..1 + f.r.below(4) {
        let group = f.r.chance(30);
        let (at, m): (&[(&str, u32, &str)], bool) = match f.r.below(4) {
            0 => (&[("clip-path", 60, "u"), ("mask", 30, "u")], true),
            1 => (&[("filter", 60, "u"), ("clip-path", 20, "u")], true),
            2 => (&[("fill", 60, "p"), ("stroke", 40, "p")], true),
            _ => (&[("marker-start", 40, "u"), ("marker-mid", 30, "u"), ("marker-end", 30, "u"), ("marker", 15, "u")], false),
        };
        if group {
            f.s.push_str("<g");
            f.attrs(at, "p", n);
            f.s.push('>');
        }
        f.shape(at, "p", n);
        if m && f.r.chance(40) {
            f.s.push_str("<use");
            let to = if f.r.chance(50) { "s" } else { "p" };
            f.attrs(&[("xlink:href", 95, "h"), ("x", 20, "l"), ("clip-path", 10, "u")], to, n);
            f.s.push_str("/>");
        }
        if group {
            f.s.push_str("</g>");
        }
    }
}

fn groups(f: &mut F, depth: usize) {
    let n = 1 + f.r.below(4);
    for _ in 0..n {
        if depth < 5 && f.r.chance(50) {
            let e = *f.r.pick(&["g", "g", "g", "g", "a", "switch", "svg", "defs"]);
            f.s.push_str(&format!("<{}", e));
            if f.r.chance(25) {
                let i = f.id("s");
                f.s.push_str(&format!(" id=\"{}\"", i));
            }
            f.attrs(&[("fill", 30, "c"), ("stroke", 30, "c")], "", 0);
            if f.r.chance(50) {
                f.attrs(STROKE, "", 0);
            }
            if e == "svg" {
                f.attrs(&[("x", 30, "l"), ("y", 30, "l"), ("width", 60, "l"), ("height", 60, "l"), ("viewBox", 30, "0 0 1 1|0 0 10 10|0 0 0 0")], "", 0);
            }
            f.attrs(&[("systemLanguage", 2, "en|de|"), ("class", 8, "a|b|a b|"), ("style", 15, "fill:red|fill:red;stroke:none|opacity:.5|stroke-width:2;|")], "", 0);
            f.s.push('>');
            groups(f, depth + 1);
            f.s.push_str(&format!("</{}>", e));
        } else if f.r.chance(20) {
            f.s.push_str("<use");
            f.attrs(&[("xlink:href", 92, "h"), ("x", 40, "l"), ("y", 30, "l"), ("width", 15, "l"), ("fill", 20, "c"), ("transform", 20, "t")], "s", 6);
            f.s.push_str("/>");
        } else {
            f.shape(&[("fill", 40, "c"), ("stroke", 30, "c"), ("class", 8, "a|b"), ("style", 10, "fill:red|stroke:blue;fill:none")], "", 0);
            if f.r.chance(35) {
                let k = f.s.len() - 2;
                f.s.truncate(k);
                f.attrs(STROKE, "", 0);
                f.s.push_str("/>");
            }
        }
    }
}

fn texts(f: &mut F, depth: usize) {
    const T: &[&str] = &["text", " text ", "a  b", "\n  ", "\t", "", "&lt;&amp;&gt;", "\u{a0}\u{a0}x", "\u{e9}\u{3000}\u{3000}", "<![CDATA[ <q> ]]>", "<!-- c -->", " q\r\nw ", "]]", "&#9;&#10;x", "&quot;'", "x\u{301}\u{200b} y"];
    let n = 1 + f.r.below(4);
    for _ in 0..n {
        if depth > 0 && f.r.chance(55) {
            let t = *f.r.pick(T);
            f.s.push_str(t);
            continue;
        }
        let e = if depth == 0 { *f.r.pick(&["text", "text", "g", "title", "desc", "a"]) } else { *f.r.pick(&["tspan", "tspan", "tref", "textPath", "a", "title"]) };
        f.s.push_str(&format!("<{}", e));
        if f.r.chance(35) {
            let i = f.id("s");
            f.s.push_str(&format!(" id=\"{}\"", i));
        }
        f.attrs(&[("x", 40, "ll"), ("y", 40, "ll"), ("dx", 15, "ll"), ("rotate", 10, "ll"), ("xml:space", 25, "preserve|default"), ("font-size", 25, "12|2em|50%|0|larger"), ("font-family", 25, "Arial|&quot;A B&quot;, serif"), ("text-anchor", 15, "start|middle|end"), ("fill", 20, "c"), ("letter-spacing", 8, "n"), ("baseline-shift", 10, "sub|super|10%|baseline"), ("text-decoration", 10, "none|underline"), ("font", 5, "inherit|bold 12px Arial"), ("writing-mode", 5, "tb|lr-tb"), ("textLength", 5, "l")], "", 0);
        if e == "tref" || e == "textPath" {
            f.attrs(&[("xlink:href", 92, "h")], "s", 5);
        }
        f.s.push('>');
        if depth < 4 {
            texts(f, depth + 1);
        }
        f.s.push_str(&format!("</{}>", e));
    }
}

fn styles(f: &mut F) {
    const SEL: &[&str] = &[".a", ".b", "#s1", "rect", "*", "g", "path.a", ".a.b", "g rect", "svg", "rect", ".c", ".a, .b", "circle"];
    const DECL: &[&str] = &["fill:red", "fill:#0f0", "stroke:url(#g0)", "stroke-width:2", "opacity:.5", "stroke-width:2mm", "display:none", "fill:none !important", "font-family:'A B'", "-inkscape-x:1", "unknown:1", "stroke-dasharray:1,2", "clip-path:url(#g0)", "marker:none", "fill: inherit", "color:blue", "stroke:currentColor", "fill:url(#no) red"];
    for _ in 0..1 + f.r.below(2) {
        f.s.push_str(*f.r.pick(&["<style>", "<style type=\"text/css\">", "<style type=\"text/css\"><![CDATA["]));
        let cdata = f.s.ends_with("<![CDATA[");
        for _ in 0..f.r.below(5) {
            let a = *f.r.pick(SEL);
            f.s.push_str(a);
            f.s.push('{');
            for _ in 0..f.r.below(4) {
                let d = *f.r.pick(DECL);
                f.s.push_str(d);
                f.s.push(';');
            }
            f.s.push('}');
        }
        f.s.push_str(if cdata { "]]></style>" } else { "</style>" });
    }
    if f.r.chance(50) {
        f.s.push_str("<linearGradient id=\"g0\"><stop offset=\"0\" stop-color=\"red\" class=\"a\"/><stop offset=\"1\"/></linearGradient>");
    }
    groups(f, 2);
    for _ in 0..1 + f.r.below(3) {
        f.shape(&[("class", 60, "a|b|a b|c"), ("style", 40, "fill:red|stroke:url(#g0)|fill:inherit;color:red|opacity:0.5;;stroke:none"), ("fill", 30, "c")], "", 0);
    }
}

/// Any element refers to any other one with any attribute that can hold a reference.
fn links(f: &mut F) {
    const KINDS: &[&str] = &["linearGradient", "radialGradient", "linearGradient", "radialGradient", "pattern", "clipPath", "mask", "filter", "marker", "symbol", "g", "rect", "use", "path", "stop", "feGaussianBlur", "feImage", "text", "textPath", "tref", "image", "svg", "a", "switch", "defs", "cursor", "feFlood"];
    const REFS: &[(&str, &str)] = &[("xlink:href", "h"), ("xlink:href", "h"), ("fill", "u"), ("stroke", "u"), ("clip-path", "u"), ("mask", "u"), ("filter", "u"), ("marker-start", "u"), ("marker", "u"), ("color-profile", "u"), ("cursor", "u")];
    let n = 2 + f.r.below(7);
    const GRADIENTS: &[&str] = &["linearGradient", "radialGradient", "linearGradient"];
    let only_gradients = f.r.chance(35);
    let kinds: Vec<&str> = if only_gradients { (0..n).map(|_| *f.r.pick(GRADIENTS)).collect() } else {
        let some: Vec<&str> = (0..1 + f.r.below(3)).map(|_| *f.r.pick(KINDS)).collect();
        let narrow = f.r.chance(50);
        (0..n).map(|_| if narrow { *f.r.pick(&some) } else { *f.r.pick(KINDS) }).collect()
    };
    let mut attrs: Vec<(&str, &str)> = (0..1 + f.r.below(4)).map(|_| *f.r.pick(REFS)).collect();
    if f.r.chance(60) {
        attrs.insert(0, REFS[0]);
    }
    // later elements refer to earlier ones, or any to any
    let forward = f.r.chance(50);
    let mut open: Vec<&str> = Vec::new();
    for (i, e) in kinds.iter().enumerate() {
        f.s.push_str(&format!("<{} id=\"k{}\"", e, i));
        let mut done: Vec<&str> = Vec::new();
        for &(k, kind) in &attrs {
            if done.contains(&k) || !f.r.chance(45) {
                continue;
            }
            done.push(k);
            let mut t = if forward && i > 0 { f.r.below(i) } else { f.r.below(n) };
            // mostly one that makes sense there
            let fits: Vec<usize> = (0..if forward { i } else { n }).filter(|j| *j != i && match k {
                "xlink:href" if e.ends_with("Gradient") => kinds[*j].ends_with("Gradient"),
                "xlink:href" if *e == "pattern" || *e == "filter" => kinds[*j] == *e,
                "fill" | "stroke" => kinds[*j].ends_with("Gradient") || kinds[*j] == "pattern",
                "clip-path" => kinds[*j] == "clipPath",
                "mask" | "filter" => kinds[*j] == k,
                "marker" | "marker-start" => kinds[*j] == "marker",
                _ => true,
            }).collect();
            if !fits.is_empty() && f.r.chance(75) {
                t = *f.r.pick(&fits);
            }
            let v = if kind == "h" { format!("#k{}", t) } else { format!("url(#k{})", t) };
            f.s.push_str(&format!(" {}=\"{}\"", k, v));
        }
        match *e {
            "linearGradient" => f.attrs(&[("x1", 30, "l"), ("gradientUnits", 30, "units"), ("gradientTransform", 25, "t")], "", 0),
            "radialGradient" => f.attrs(&[("cx", 30, "l"), ("gradientUnits", 30, "units"), ("gradientTransform", 25, "t")], "", 0),
            "rect" | "image" | "svg" | "pattern" => f.attrs(&[("width", 90, "n"), ("height", 90, "n"), ("x", 20, "n")], "", 0),
            "path" => f.s.push_str(" d=\"M1 2L3 4 5 9\""),
            "stop" => f.attrs(&[("offset", 80, "0|1|.5"), ("stop-color", 50, "red|blue")], "", 0),
            "feGaussianBlur" => f.s.push_str(" stdDeviation=\"2\""),
            "use" => f.attrs(&[("x", 30, "n"), ("y", 20, "n")], "", 0),
            "g" | "symbol" | "a" => f.attrs(&[("transform", 20, "t"), ("fill", if done.contains(&"fill") { 0 } else { 20 }, "red|none")], "", 0),
            _ => {}
        }
        let gradient = e.ends_with("Gradient");
        if gradient && f.r.chance(55) {
            f.s.push_str(*f.r.pick(&["><stop offset=\"0\"/><stop offset=\"1\" stop-color=\"red\"/>", "><stop offset=\".5\" stop-color=\"red\"/>", "><stop offset=\"0\"/><stop offset=\"1\" stop-color=\"blue\"/>"]));
            f.s.push_str(&format!("</{}>", e));
        } else if gradient && f.r.chance(90) || open.len() > 4 || f.r.chance(45) {
            f.s.push_str("/>");
        } else {
            f.s.push('>');
            open.push(e);
        }
        while !open.is_empty() && f.r.chance(45) {
            f.s.push_str(&format!("</{}>", open.pop().unwrap()));
        }
    }
    while let Some(e) = open.pop() {
        f.s.push_str(&format!("</{}>", e));
    }
    for _ in 0..f.r.below(4) {
        f.shape(&[("fill", 60, "p"), ("stroke", 30, "p"), ("clip-path", 10, "u"), ("filter", 10, "u")], "k", n);
    }
}

/// Elements with attributes of their own, often with the value that is the default.
fn fitting(f: &mut F) {
    const OWN: &[(&str, &[(&str, u32, &str)])] = &[
        ("svg", &[("x", 40, "0|0|1"), ("y", 40, "0|2"), ("width", 40, "100%|10|50%"), ("height", 40, "100%|10"), ("overflow", 40, "visible|hidden|auto|scroll"), ("viewBox", 30, "0 0 10 10"), ("preserveAspectRatio", 30, "xMidYMid meet|none"), ("version", 30, "1.1"), ("zoomAndPan", 20, "magnify|disable")]),
        ("mask", &[("x", 60, "-10%|0|-10"), ("y", 60, "-10%|0"), ("width", 60, "120%|0|10"), ("height", 60, "120%|5%"), ("maskUnits", 50, "units"), ("maskContentUnits", 50, "units"), ("overflow", 20, "hidden|visible")]),
        ("filter", &[("x", 60, "-10%|0|-10"), ("y", 60, "-10%|0"), ("width", 60, "120%|0|10"), ("height", 60, "120%|5%"), ("filterUnits", 50, "units"), ("primitiveUnits", 50, "units"), ("filterRes", 20, "1|10 10")]),
        ("pattern", &[("x", 50, "0|1"), ("y", 50, "0|1"), ("width", 60, "0|10|0%"), ("height", 60, "0|10"), ("patternUnits", 50, "units"), ("patternContentUnits", 50, "units"), ("overflow", 40, "hidden|visible"), ("patternTransform", 40, "t")]),
        ("marker", &[("refX", 60, "0|1|0%"), ("refY", 60, "0|1"), ("markerWidth", 50, "3|0"), ("markerHeight", 50, "3|1"), ("orient", 40, "0|auto|90"), ("markerUnits", 50, "strokeWidth|userSpaceOnUse"), ("overflow", 40, "hidden|visible")]),
        ("clipPath", &[("clipPathUnits", 70, "units"), ("clip-rule", 20, "nonzero|evenodd")]),
        ("line", &[("x1", 60, "0|1|0%"), ("y1", 60, "0|2"), ("x2", 60, "0|3"), ("y2", 60, "0|4"), ("stroke", 60, "none|red")]),
        ("circle", &[("cx", 60, "0|1|0mm"), ("cy", 60, "0|2"), ("r", 80, "1|0")]),
        ("ellipse", &[("cx", 60, "0|1"), ("cy", 60, "0|0%"), ("rx", 80, "1|0"), ("ry", 80, "2|0")]),
        ("rect", &[("x", 60, "0|1|0%"), ("y", 60, "0|2|0mm"), ("width", 85, "10|100%"), ("height", 85, "10|0"), ("rx", 40, "0|1"), ("ry", 40, "0|1")]),
        ("image", &[("x", 50, "0|1"), ("y", 50, "0|1"), ("width", 80, "10"), ("height", 80, "10|0"), ("preserveAspectRatio", 30, "xMidYMid|none"), ("overflow", 20, "hidden|visible")]),
        ("use", &[("x", 60, "0|1|0%"), ("y", 60, "0|1"), ("width", 30, "10|0"), ("height", 30, "10"), ("xlink:href", 80, "h")]),
        ("text", &[("x", 60, "0|0 0|1 2"), ("y", 60, "0|0|3"), ("dx", 30, "0|1"), ("dy", 30, "0"), ("rotate", 30, "0|1"), ("textLength", 20, "0|5"), ("lengthAdjust", 20, "spacing|spacingAndGlyphs")]),
        ("glyphRef", &[("x", 60, "0|1"), ("y", 60, "0"), ("dx", 40, "0"), ("xlink:href", 50, "h")]),
        ("font-face", &[("units-per-em", 60, "1000|1"), ("slope", 60, "0|1|5"), ("font-weight", 40, "all|bold"), ("font-stretch", 40, "normal|wider"), ("font-variant", 30, "normal"), ("stemv", 20, "0|1")]),
        ("feFuncR", &[("type", 80, "linear|identity|table"), ("slope", 60, "0|1|2"), ("intercept", 50, "0|1"), ("amplitude", 50, "1|0"), ("exponent", 50, "1|2"), ("offset", 50, "0|1"), ("tableValues", 30, "0 1|1")]),
        ("feGaussianBlur", &[("stdDeviation", 85, "0|0 0|1|2 3"), ("in", 30, "SourceGraphic|a"), ("result", 30, "a")]),
        ("feDropShadow", &[("stdDeviation", 85, "0|2|0 0"), ("dx", 40, "2|0")]),
        ("feOffset", &[("dx", 60, "0|1"), ("dy", 60, "0|1"), ("in", 30, "SourceGraphic")]),
        ("feComposite", &[("operator", 60, "over|in|arithmetic"), ("k1", 40, "0|1"), ("k2", 40, "0"), ("in2", 40, "a|BackgroundImage")]),
        ("feConvolveMatrix", &[("order", 60, "3|3 3|2"), ("kernelMatrix", 60, "1 0 0 0 1 0 0 0 1"), ("divisor", 30, "1|0"), ("bias", 40, "0|1"), ("edgeMode", 40, "duplicate|wrap|none"), ("preserveAlpha", 40, "false|true")]),
        ("feTurbulence", &[("baseFrequency", 60, "0|.05|.1 .2"), ("numOctaves", 40, "1|2"), ("seed", 40, "0|1"), ("stitchTiles", 40, "noStitch|stitch"), ("type", 40, "turbulence|fractalNoise")]),
        ("feDiffuseLighting", &[("surfaceScale", 60, "1|2"), ("diffuseConstant", 60, "1|2"), ("lighting-color", 40, "white|red|currentColor")]),
        ("linearGradient", &[("x1", 60, "0%|0|1"), ("y1", 60, "0%|0"), ("x2", 60, "100%|1|0"), ("y2", 60, "0%|0|1"), ("gradientUnits", 60, "units"), ("spreadMethod", 50, "pad|reflect"), ("gradientTransform", 30, "t"), ("xlink:href", 40, "h")]),
        ("radialGradient", &[("cx", 60, "50%|.5|0"), ("cy", 60, "50%|.5"), ("r", 60, "50%|.5|0"), ("fx", 60, "50%|.5"), ("fy", 60, "50%|.5|1"), ("gradientUnits", 60, "units"), ("spreadMethod", 50, "pad|repeat"), ("xlink:href", 40, "h")]),
        ("stop", &[("offset", 80, "0|1|50%|0%"), ("stop-color", 60, "black|#000|red|currentColor"), ("stop-opacity", 60, "1|0|.5")]),
        ("g", &[("fill", 40, "black|#000|none|red"), ("stroke", 40, "none|red"), ("opacity", 30, "1|.5|0"), ("fill-opacity", 30, "1|.5"), ("stroke-width", 30, "1|2"), ("stroke-linecap", 30, "butt|round"), ("stroke-linejoin", 30, "miter|bevel"), ("stroke-miterlimit", 30, "4|10"), ("stroke-dasharray", 30, "none|1 2"), ("stroke-dashoffset", 30, "0|1"), ("display", 20, "inline|none"), ("visibility", 20, "visible|hidden"), ("font-size", 20, "medium|12"), ("letter-spacing", 20, "normal|0"), ("overflow", 30, "visible|hidden"), ("color", 20, "black|inherit"), ("clip-path", 20, "none"), ("mask", 20, "none"), ("filter", 20, "none"), ("marker-start", 20, "none"), ("transform", 30, "t")]),
    ];
    let mut open: Vec<&str> = Vec::new();
    let some: Vec<usize> = (0..1 + f.r.below(4)).map(|_| f.r.below(OWN.len())).collect();
    let n = 2 + f.r.below(10);
    let inherit = f.r.chance(15);
    for i in 0..n {
        let (e, spec) = if f.r.chance(70) { OWN[*f.r.pick(&some)] } else { *f.r.pick(OWN) };
        f.s.push_str(&format!("<{} id=\"k{}\"", e, i));
        let at = f.s.len();
        f.attrs(spec, "k", n);
        if f.r.chance(35) {
            // what an element inherits or hides
            let g = OWN[OWN.len() - 1].1;
            for _ in 0..1 + f.r.below(3) {
                let a = *f.r.pick(g);
                if f.s[at..].contains(&format!(" {}=", a.0)) {
                    continue;
                }
                if inherit && f.r.chance(40) {
                    f.s.push_str(&format!(" {}=\"inherit\"", a.0));
                } else {
                    f.attrs(&[(a.0, 100, a.2)], "k", n);
                }
            }
        }
        let leaf = ["line", "circle", "ellipse", "rect", "image", "use", "stop", "glyphRef"].contains(&e);
        if e == "text" {
            f.s.push_str(">a b</text>");
        } else if open.len() > 5 || f.r.chance(if leaf { 95 } else { 30 }) {
            f.s.push_str("/>");
        } else {
            f.s.push('>');
            open.push(e);
        }
        while !open.is_empty() && f.r.chance(35) {
            f.s.push_str(&format!("</{}>", open.pop().unwrap()));
        }
    }
    while let Some(e) = open.pop() {
        f.s.push_str(&format!("</{}>", e));
    }
    for _ in 0..f.r.below(3) {
        f.shape(&[("fill", 60, "p"), ("stroke", 30, "p"), ("clip-path", 20, "u"), ("mask", 15, "u"), ("filter", 20, "u"), ("marker-mid", 15, "u")], "k", n);
    }
}

/// Nested elements whose references are inherited, moved up and down; few names, some of them given twice.
fn inherit(f: &mut F) {
    const LINKS: &[&str] = &["fill", "stroke", "fill", "stroke", "clip-path", "mask", "filter", "marker-start", "marker-end", "xlink:href"];
    const NAMES: &[&str] = &["k0", "k1", "k2", "k3", "k4"];
    let twice = f.r.chance(60);
    let mut free: Vec<&str> = NAMES.to_vec();
    let some: Vec<&str> = (0..1 + f.r.below(2)).map(|_| *f.r.pick(LINKS)).collect();
    let target = *f.r.pick(NAMES);
    fn element(f: &mut F, e: &str, some: &[&str], target: &str, free: &mut Vec<&str>, twice: bool, named: u32) {
        f.s.push_str(&format!("<{}", e));
        if f.r.chance(named) && !free.is_empty() {
            let k = f.r.below(free.len());
            f.s.push_str(&format!(" id=\"{}\"", free[k]));
            if !twice || f.r.chance(40) {
                free.swap_remove(k);
            }
        }
        let mut done: Vec<&str> = Vec::new();
        for a in some {
            if done.contains(a) || !f.r.chance(55) {
                continue;
            }
            done.push(*a);
            let t = if f.r.chance(70) { target } else { *f.r.pick(NAMES) };
            f.s.push_str(&if *a == "xlink:href" { format!(" xlink:href=\"#{}\"", t) } else { format!(" {}=\"url(#{})\"", a, t) });
        }
        f.attrs(&[("stroke-width", 15, "n"), ("opacity", 10, "a"), ("transform", 10, "t"), ("display", 4, "none|inline"), ("font-size", 5, "n"), ("fill-rule", 15, "evenodd|nonzero")], "", 0);
    }
    fn leaf(f: &mut F, e: &str) {
        match e {
            "path" => f.s.push_str(" d=\"M1 2L3 4 5 9\"/>"),
            "rect" => f.s.push_str(" width=\"5\" height=\"6\"/>"),
            _ => f.s.push_str("/>"),
        }
    }
    fn level(f: &mut F, some: &[&str], target: &str, free: &mut Vec<&str>, twice: bool, depth: usize) {
        let n = 1 + f.r.below(3);
        let e = *f.r.pick(&["path", "rect", "path", "use", "text", "image"]);
        for _ in 0..n {
            if depth < 3 && f.r.chance(45) {
                let g = *f.r.pick(&["g", "g", "g", "g", "g", "a", "svg", "switch", "symbol", "clipPath", "mask", "defs", "pattern", "marker"]);
                element(f, g, some, target, free, twice, 40);
                f.s.push('>');
                level(f, some, target, free, twice, depth + 1);
                f.s.push_str(&format!("</{}>", g));
            } else {
                element(f, e, some, target, free, twice, 25);
                leaf(f, e);
            }
        }
    }
    level(f, &some, target, &mut free, twice, 0);
    // what they refer to, which refers back now and then
    for k in 0..1 + f.r.below(3) {
        let id = if k == 0 { target } else { *f.r.pick(NAMES) };
        let e = match some[f.r.below(some.len())] {
            "clip-path" => "clipPath",
            "mask" => "mask",
            "filter" => "filter",
            "marker-start" | "marker-end" => "marker",
            "xlink:href" => "path",
            _ => *f.r.pick(&["linearGradient", "radialGradient", "pattern"]),
        };
        f.s.push_str(&format!("<{} id=\"{}\"", e, id));
        if f.r.chance(35) {
            let a = *f.r.pick(LINKS);
            let t = *f.r.pick(NAMES);
            f.s.push_str(&if a == "xlink:href" { format!(" xlink:href=\"#{}\"", t) } else { format!(" {}=\"url(#{})\"", a, t) });
        }
        match e {
            "path" => f.s.push_str(" d=\"M1 2L3 4 5 9\"/>"),
            "pattern" => f.s.push_str(" width=\"5\" height=\"6\"><path d=\"M1 2L3 4 5 9\"/></pattern>"),
            "filter" => f.s.push_str("><feGaussianBlur stdDeviation=\"2\"/></filter>"),
            "clipPath" | "mask" | "marker" => f.s.push_str(&format!("><path d=\"M1 2L3 4 5 9\"/></{}>", e)),
            _ => f.s.push_str(&format!("><stop offset=\"0\"/><stop offset=\"1\" stop-color=\"red\"/></{}>", e)),
        }
    }
}

/// Gives an element the name of another one.
fn same_name(r: &mut Rng, s: &str) -> String {
    let at: Vec<usize> = s.match_indices(" id=\"").map(|(i, _)| i + 5).collect();
    if at.len() < 2 {
        return s.to_string();
    }
    let name = |i: usize| &s[i..i + s[i..].find('"').unwrap_or(0)];
    let (a, b) = (at[r.below(at.len())], at[r.below(at.len())]);
    format!("{}{}{}", &s[..a], name(b), &s[a + name(a).len()..])
}

pub fn any(r: &mut Rng) -> String {
    with_options(r).0
}

/// References only.
pub fn only_links(r: &mut Rng) -> String {
    let mut f = F { r, s: format!("{} color=\"#123\">", HEAD), few: true, n: 0 };
    if f.r.chance(50) { links(&mut f) } else { inherit(&mut f) }
    f.s.push_str("</svg>\n");
    f.s
}

/// A document and the options that matter to it.
pub fn with_options(r: &mut Rng) -> (String, Vec<String>) {
    let few = r.chance(40);
    let mut f = F { r, s: String::from(HEAD), few, n: 0 };
    if f.r.chance(60) {
        f.s.push_str(" color=\"#123\"");
    }
    f.attrs(&[("width", 30, "l"), ("height", 30, "l"), ("viewBox", 20, "0 0 10 10|0 0 100 100"), ("fill", 15, "c"), ("font-size", 15, "12|2em"), ("version", 10, "1.1|1.2"), ("xml:space", 4, "preserve")], "", 0);
    f.s.push('>');
    const GRADIENT: &[&str] = &["remove-gradient-attributes", "regroup-gradient-stops", "merge-gradients", "remove-dupl-lineargradient", "remove-dupl-radialgradient", "apply-transform-to-gradients", "remove-invalid-stops", "remove-unused-defs", "remove-needless-attributes", "remove-default-attributes"];
    const SERVER: &[&str] = &["remove-unused-defs", "remove-invisible-elements", "ungroup-defs", "resolve-use", "remove-dupl-fegaussianblur", "remove-needless-attributes", "remove-default-attributes", "ungroup-groups", "group-by-style"];
    const GROUP: &[&str] = &["ungroup-groups", "group-by-style", "apply-transform-to-shapes", "apply-transform-to-paths", "paths-to-relative", "convert-shapes", "remove-invisible-elements", "remove-needless-attributes", "remove-default-attributes", "resolve-use"];
    const TEXT: &[&str] = &["remove-text-attributes", "remove-title", "remove-desc", "remove-unreferenced-ids", "trim-ids", "remove-needless-attributes", "ungroup-groups", "group-by-style"];
    const STYLE: &[&str] = &["remove-unresolved-classes", "group-by-style", "remove-needless-attributes", "remove-default-attributes", "ungroup-groups"];
    let mut names: Vec<&str> = Vec::new();
    for _ in 0..1 + (f.r.below(4) / 3) {
        names.extend_from_slice(match f.r.below(13) {
            0 | 1 => { gradients(&mut f); GRADIENT }
            2 | 3 => { servers(&mut f); SERVER }
            4 => { groups(&mut f, 0); GROUP }
            5 => { texts(&mut f, 0); TEXT }
            6 => { styles(&mut f); STYLE }
            11 | 12 => { inherit(&mut f); if f.r.chance(70) { GROUP } else { SERVER } }
            7 | 8 => { links(&mut f); if f.r.chance(50) { GRADIENT } else { SERVER } }
            _ => { fitting(&mut f); if f.r.chance(50) { SERVER } else { GROUP } }
        });
    }
    f.s.push_str("</svg>\n");
    if f.r.chance(8) {
        f.s = same_name(f.r, &f.s);
    }
    let mut flags = Vec::new();
    let nd = f.r.chance(50);
    if nd {
        flags.push("--no-defaults".to_string());
    }
    for _ in 0..1 + f.r.below(4) {
        if names.is_empty() {
            break;
        }
        let k = f.r.below(names.len());
        let n = names.swap_remove(k);
        names.retain(|x| *x != n);
        let yes = f.r.chance(if nd { 90 } else { 55 });
        if ["apply-transform-to-paths", "paths-to-relative"].contains(&n) && nd == yes {
            // one needs the other
            flags.retain(|x| !x.contains("paths"));
            names.retain(|x| !x.contains("paths"));
            if nd {
                flags.push("--paths-to-relative=yes".into());
                flags.push("--apply-transform-to-paths=yes".into());
            }
            continue;
        }
        flags.push(format!("--{}={}", n, if yes { "yes" } else { "no" }));
    }
    (f.s, flags)
}
