//! Random SVG documents: valid ones, ones svgcleaner must refuse, malformed and damaged ones.
use crate::rng::Rng;

const COLORS: &[&str] = &["red", "#f00", "#ff8800", "#123456", "rgb(10,20,30)", "rgb(10%,20%,30%)", "none", "currentColor", "black", "aliceblue"];
const UNITS: &[&str] = &["", "", "", "px", "mm", "em", "%", "pt"];

pub struct G<'a> {
    pub r: &'a mut Rng,
    ids: Vec<String>,
    grads: Vec<String>,
    filters: Vec<String>,
    clips: Vec<String>,
    shapes: Vec<String>,
    patterns: Vec<String>,
    markers: Vec<String>,
    masks: Vec<String>,
    n: u32,
    warn: bool,
    text: bool,
    rich: bool,
}

impl<'a> G<'a> {
    fn num(&mut self) -> String {
        match self.r.below(8) {
            0 => format!("{}", self.r.range(-20, 200)),
            1 => format!("{}", self.r.range(0, 10)),
            2 => format!("{}.{}", self.r.range(-9, 99), self.r.range(0, 999999)),
            3 => format!("{}.{:03}", self.r.range(0, 300), self.r.range(0, 999)),
            4 => format!("{}e-{}", self.r.range(1, 99), self.r.range(1, 5)),
            5 => format!(".{}", self.r.range(1, 99999)),
            _ => format!("{}", self.r.range(1, 100)),
        }
    }
    fn pos(&mut self) -> String {
        match self.r.below(4) {
            0 => format!("{}.{}", self.r.range(1, 99), self.r.range(0, 9999)),
            _ => format!("{}", self.r.range(1, 200)),
        }
    }
    fn id(&mut self, p: &str) -> String {
        self.n += 1;
        let s = match self.r.below(3) {
            0 => format!("{}{}", p, self.n),
            1 => format!("{}-long-identifier_{}", p, self.n),
            _ => format!("{}.{}", p, self.n),
        };
        self.ids.push(s.clone());
        s
    }
    fn sep(&mut self) -> &'static str {
        ["\n", "\n  ", "", " ", "\r\n", "\n\t"][self.r.below(6)]
    }
    fn transform(&mut self) -> String {
        let k = 1 + self.r.below(2);
        let mut v = Vec::new();
        for _ in 0..k {
            v.push(match self.r.below(6) {
                0 => format!("translate({} {})", self.num(), self.num()),
                1 => format!("scale({})", self.pos()),
                2 => format!("rotate({},{},{})", self.num(), self.num(), self.num()),
                3 => format!("matrix({} {} {} {} {} {})", self.pos(), self.num(), self.num(), self.pos(), self.num(), self.num()),
                4 => "matrix(1,0,0,1,0,0)".to_string(),
                _ => format!("skewX({})", self.r.range(1, 40)),
            });
        }
        v.join(" ")
    }
    fn paint(&mut self) -> String {
        if !self.grads.is_empty() && self.r.chance(40) {
            let g = self.r.pick(&self.grads).clone();
            return format!("url(#{})", g);
        }
        if !self.patterns.is_empty() && self.r.chance(15) {
            let g = self.r.pick(&self.patterns).clone();
            return format!("url(#{})", g);
        }
        if self.warn && self.r.chance(30) {
            return format!("url(#missing{})", self.r.below(9));
        }
        self.r.pick(COLORS).to_string()
    }
    fn presentation(&mut self) -> String {
        let mut s = String::new();
        let mut style = Vec::new();
        let n = self.r.below(4);
        let mut used = Vec::new();
        for _ in 0..n {
            let (k, v) = match self.r.below(12) {
                0 | 1 => ("fill", self.paint()),
                2 => ("stroke", self.paint()),
                3 => ("stroke-width", format!("{}{}", self.pos(), ["", "px", "mm"][self.r.below(3)])),
                4 => ("opacity", format!("0.{}", self.r.range(1, 9999))),
                5 => ("fill-opacity", format!("{}", ["0.5", "1", "0.333333333", "0"][self.r.below(4)])),
                6 => ("stroke-linejoin", ["miter", "round", "bevel"][self.r.below(3)].to_string()),
                7 => ("display", ["inline", "none"][(self.r.below(6) == 0) as usize].to_string()),
                8 => ("font-size", format!("{}px", self.r.range(5, 40))),
                9 => ("font-family", ["Arial", "'Times New Roman'", "sans-serif"][self.r.below(3)].to_string()),
                10 => ("stroke-dasharray", format!("{},{}", self.pos(), self.pos())),
                _ => ("fill-rule", ["evenodd", "nonzero"][self.r.below(2)].to_string()),
            };
            if used.contains(&k) {
                continue;
            }
            used.push(k);
            if self.r.chance(40) {
                style.push(format!("{}:{}", k, v));
            } else {
                s.push_str(&format!(" {}=\"{}\"", k, v));
            }
        }
        if !self.filters.is_empty() && self.r.chance(8) {
            let f = self.r.pick(&self.filters).clone();
            s.push_str(&format!(" filter=\"url(#{})\"", f));
        }
        if !self.clips.is_empty() && self.r.chance(8) {
            let f = self.r.pick(&self.clips).clone();
            s.push_str(&format!(" clip-path=\"url(#{})\"", f));
        }
        if !self.masks.is_empty() && self.r.chance(8) {
            let f = self.r.pick(&self.masks).clone();
            s.push_str(&format!(" mask=\"url(#{})\"", f));
        }
        if !self.markers.is_empty() && self.r.chance(12) {
            let f = self.r.pick(&self.markers).clone();
            let k = *self.r.pick(&["marker-start", "marker-mid", "marker-end", "marker"]);
            style.push(format!("{}:url(#{})", k, f));
        }
        if self.rich && self.r.chance(10) {
            // inherited or not, changing what other attributes mean
            s.push_str(*self.r.pick(&[" visibility=\"hidden\"", " color=\"#102030\"", " overflow=\"visible\"", " stroke-miterlimit=\"4\"", " stroke-dashoffset=\"3.25\"", " clip-rule=\"evenodd\"", " enable-background=\"new\"", " xml:space=\"preserve\"", " letter-spacing=\"1.5\"", " text-anchor=\"middle\"", " font-weight=\"bold\"", " pointer-events=\"none\"", " id-less=\"1\"", " data-name=\"d\u{e9}\"", " shape-rendering=\"crispEdges\"", " paint-order=\"stroke\""]));
        }
        if !style.is_empty() {
            s.push_str(&format!(" style=\"{}\"", style.join(";")));
        }
        if self.r.chance(12) {
            s.push_str(&format!(" transform=\"{}\"", self.transform()));
        }
        if self.r.chance(8) {
            s.push_str(" class=\"c1\"");
        } else if self.warn && self.r.chance(15) {
            s.push_str(" class=\"nowhere\"");
        }
        if self.r.chance(5) {
            s.push_str(" inkscape:label=\"L\u{e4}yer\"");
        }
        s
    }
    fn path_data(&mut self) -> String {
        let mut d = format!("M {} {}", self.num(), self.num());
        for _ in 0..1 + self.r.below(6) {
            let seg = match self.r.below(10) {
                0 => format!(" L {} {}", self.num(), self.num()),
                1 => format!(" l {},{}", self.num(), self.num()),
                2 => format!(" h{}", self.num()),
                3 => format!(" V{}", self.num()),
                4 => format!(" C {} {} {} {} {} {}", self.num(), self.num(), self.num(), self.num(), self.num(), self.num()),
                5 => format!(" c{},{} {},{} {},{}", self.num(), self.num(), self.num(), self.num(), self.num(), self.num()),
                6 => format!(" q{} {} {} {}", self.num(), self.num(), self.num(), self.num()),
                7 => format!(" A {} {} 30 {} {} {} {}", self.pos(), self.pos(), self.r.below(2), self.r.below(2), self.num(), self.num()),
                8 => format!(" s {} {} {} {}", self.num(), self.num(), self.num(), self.num()),
                _ => format!(" L {} {} L {} {}", self.num(), self.num(), self.num(), self.num()),
            };
            d.push_str(&seg);
        }
        if self.r.chance(40) {
            d.push_str(" Z");
        }
        d
    }
    fn shape(&mut self) -> String {
        let mut a = String::new();
        if self.r.chance(30) {
            let id = self.id("shape");
            a.push_str(&format!(" id=\"{}\"", id));
            self.shapes.push(id);
        }
        let p = self.presentation();
        let u = if self.r.chance(15) { *self.r.pick(UNITS) } else { "" };
        match self.r.below(9) {
            0 | 1 => format!("<rect{} x=\"{}\" y=\"{}\" width=\"{}{u}\" height=\"{}\"{p}/>", a, self.num(), self.num(), self.pos(), self.pos()),
            2 => format!("<circle{} cx=\"{}\" cy=\"{}\" r=\"{}\"{p}/>", a, self.num(), self.num(), self.pos()),
            3 => format!("<ellipse{} cx=\"{}\" cy=\"{}\" rx=\"{}\" ry=\"{}\"{p}/>", a, self.num(), self.num(), self.pos(), self.pos()),
            4 => format!("<line{} x1=\"{}\" y1=\"{}\" x2=\"{}\" y2=\"{}\"{p}/>", a, self.num(), self.num(), self.num(), self.num()),
            5 => format!("<polygon{} points=\"{},{} {},{} {},{}\"{p}/>", a, self.num(), self.num(), self.num(), self.num(), self.num(), self.num()),
            6 => format!("<polyline{} points=\"{} {} {} {}\"{p}/>", a, self.num(), self.num(), self.num(), self.num()),
            _ => {
                let d = self.path_data();
                format!("<path{} d=\"{}\"{p}/>", a, d)
            }
        }
    }
    fn words(&mut self) -> String {
        let w = ["Hello", "w\u{f6}rld", "\u{65e5}\u{672c}\u{8a9e}", "x &lt; y", "a&amp;b", "\u{1f600}", "text", "&#169;", "123", "\u{0416}"];
        let n = 1 + self.r.below(3);
        (0..n).map(|_| *self.r.pick(&w)).collect::<Vec<_>>().join(" ")
    }
    fn text_el(&mut self) -> String {
        let p = self.presentation();
        let w = self.words();
        match self.r.below(3) {
            0 => format!("<text x=\"{}\" y=\"{}\"{p}>{}</text>", self.num(), self.num(), w),
            1 => {
                let w2 = self.words();
                format!("<text{p}><tspan x=\"{}\">{}</tspan><tspan>{}</tspan></text>", self.num(), w, w2)
            }
            _ => format!("<text{p} xml:space=\"preserve\"> {} </text>", w),
        }
    }
    fn rich_node(&mut self, depth: u32) -> String {
        match self.r.below(14) {
            0 | 1 => self.defs(),
            2 | 3 if !self.shapes.is_empty() => {
                // the same thing used more than once
                let mut o = String::new();
                let s = self.r.pick(&self.shapes).clone();
                for _ in 0..2 + self.r.below(2) {
                    o.push_str(&format!("<use x=\"{}\" xlink:href=\"#{}\"{}/>", self.num(), s, ["", " fill=\"blue\"", " width=\"20\" height=\"10\"", " style=\"opacity:.5\""][self.r.below(4)]));
                }
                o
            }
            4 if depth < 4 => format!("<svg x=\"{}\" width=\"{}\" height=\"20%\" viewBox=\"0 0 10 10\" preserveAspectRatio=\"xMidYMid slice\">{}{}</svg>", self.num(), self.pos(), self.node(depth + 1), self.node(depth + 1)),
            5 if depth < 4 => format!("<switch>{}<g>{}</g>{}</switch>", self.shape(), self.node(depth + 1), self.shape()),
            6 if depth < 4 => format!("<a xlink:href=\"http://example.com/?a=1&amp;b=2\" target=\"_blank\">{}</a>", self.node(depth + 1)),
            7 => format!("<image x=\"1\" width=\"{}\" height=\"{}\" xlink:href=\"data:image/png;base64,iVBORw0KGgo=\"/>", self.pos(), self.pos()),
            8 if self.text && !self.shapes.is_empty() => {
                let s = self.r.pick(&self.shapes).clone();
                format!("<text><textPath xlink:href=\"#{}\" startOffset=\"{}%\">{}</textPath></text>", s, self.r.below(100), self.words())
            }
            9 if self.text => format!("<text x=\"1 2 3\" dy=\"0 -{}\" rotate=\"0 10 20\">{}<tspan baseline-shift=\"super\">{}</tspan> {}</text>", self.pos(), self.words(), self.words(), self.words()),
            10 => "<style>.c2 { stroke:#00f; fill:none } #grid1{opacity:.5} path{stroke-linecap:round}</style>".to_string(),
            11 => format!("<path class=\"c1 c2\" d=\"{}\" marker-end=\"none\" transform=\"{}\"/>", self.path_data(), self.transform()),
            12 => format!("<path d=\"M {} {} {}\"/>", self.num(), self.num(), ["", "z", "L 1 1 M 2 2 M 3 3", "m 1 1 z m 2 2 z l 1 0", "h 1 h 2 h 0 v 0 v -1", "t 1 2 T 3 4", "L 1e-7 1e7 L 123456.789 0.000001"][self.r.below(7)]),
            _ => {
                let p = self.presentation();
                format!("<g{}><g{}>{}</g></g>", p, self.presentation(), self.shape())
            }
        }
    }
    fn rich_def(&mut self) -> String {
        match self.r.below(13) {
            0 | 1 => {
                let id = self.id("sym");
                let o = format!("<symbol id=\"{}\" viewBox=\"0 0 {} {}\">{}{}</symbol>", id, self.pos(), self.pos(), self.shape(), self.shape());
                self.shapes.push(id);
                o
            }
            2 | 3 => {
                let id = self.id("grp");
                let o = format!("<g id=\"{}\"{}>{}{}</g>", id, self.presentation(), self.shape(), self.shape());
                self.shapes.push(id);
                o
            }
            4 => {
                let id = self.id("mrk");
                let o = format!("<marker id=\"{}\" refX=\"{}\" markerWidth=\"{}\" orient=\"auto\">{}</marker>", id, self.num(), self.pos(), self.shape());
                self.markers.push(id);
                o
            }
            5 => {
                let id = self.id("msk");
                let o = format!("<mask id=\"{}\" maskUnits=\"userSpaceOnUse\" x=\"{}\" width=\"{}\">{}</mask>", id, self.num(), self.pos(), self.shape());
                self.masks.push(id);
                o
            }
            6 => {
                let id = self.id("ptn");
                let href = if !self.patterns.is_empty() && self.r.chance(30) { format!(" xlink:href=\"#{}\"", self.r.pick(&self.patterns).clone()) } else { String::new() };
                let o = format!("<pattern id=\"{}\" width=\"{}\" height=\"4\" patternTransform=\"{}\" patternUnits=\"userSpaceOnUse\"{}>{}</pattern>", id, self.pos(), self.transform(), href, self.shape());
                self.patterns.push(id);
                o
            }
            7 => {
                let id = self.id("flt");
                let o = format!("<filter id=\"{}\" x=\"-{}%\"><feOffset dx=\"{}\" result=\"a\"/><feFlood flood-color=\"red\" flood-opacity=\"{}\"/><feMerge><feMergeNode in=\"a\"/><feMergeNode in=\"SourceGraphic\"/></feMerge></filter>", id, self.pos(), self.num(), ["1", ".5", "0"][self.r.below(3)]);
                self.filters.push(id);
                o
            }
            8 => {
                // equal definitions under different names
                let o = match self.r.below(4) {
                    0 => "<linearGradient id=\"@\" x1=\"1\"><stop offset=\"0\" stop-color=\"red\"/><stop offset=\"1\" stop-color=\"blue\"/></linearGradient>",
                    1 => "<radialGradient id=\"@\" cx=\"1\"><stop offset=\".5\" stop-color=\"red\"/><stop offset=\"1\"/></radialGradient>",
                    2 => "<clipPath id=\"@\"><rect width=\"10\" height=\"11\"/></clipPath>",
                    _ => "<filter id=\"@\"><feGaussianBlur stdDeviation=\"3\"/></filter>",
                };
                let mut t = String::new();
                for _ in 0..2 + self.r.below(2) {
                    let id = self.id("dup");
                    t.push_str(&o.replace('@', &id));
                    if o.starts_with("<cl") {
                        self.clips.push(id);
                    } else if o.starts_with("<fi") {
                        self.filters.push(id);
                    } else {
                        self.grads.push(id);
                    }
                }
                t
            }
            9 => {
                // a gradient without stops of its own
                if self.grads.is_empty() {
                    return self.shape();
                }
                let id = self.id("lnk");
                let t = *self.r.pick(&["linear", "radial"]);
                let o = format!("<{}Gradient id=\"{}\" xlink:href=\"#{}\" gradientTransform=\"{}\" spreadMethod=\"{}\"/>", t, id, self.r.pick(&self.grads).clone(), self.transform(), ["pad", "reflect"][self.r.below(2)]);
                self.grads.push(id);
                o
            }
            10 => {
                let id = self.id("clp");
                let c = if !self.clips.is_empty() && self.r.chance(40) { format!(" clip-path=\"url(#{})\"", self.r.pick(&self.clips).clone()) } else { String::new() };
                let o = format!("<clipPath id=\"{}\"{}{}>{}{}</clipPath>", id, c, ["", " clipPathUnits=\"objectBoundingBox\"", " transform=\"scale(2)\""][self.r.below(3)], self.shape(), ["", "<g/>", "<path d=\"\"/>"][self.r.below(3)]);
                self.clips.push(id);
                o
            }
            11 => self.defs(),
            _ => self.shape(),
        }
    }
    /// Constructs svgcleaner accepts with a warning.
    fn warning(&mut self) -> String {
        let k = self.n;
        self.n += 1;
        match self.r.below(14) {
            0 => format!("<linearGradient id=\"w{k}\"><stop stop-color=\"red\"/><stop offset=\"1\"/></linearGradient><rect width=\"3\" height=\"3\" fill=\"url(#w{k})\"/>"),
            1 => format!("<defs><radialGradient id=\"w{k}\"><stop/><stop offset=\".7\"/></radialGradient></defs><circle r=\"3\" stroke=\"url(#w{k})\"/>"),
            2 => format!("<linearGradient id=\"w{k}\"><stop offset=\"{}\"/><stop offset=\"1\"/></linearGradient><rect width=\"3\" height=\"3\" fill=\"url(#w{k})\"/>", ["5px", "1mm", "0.5em"][self.r.below(3)]),
            3 => format!("<path d=\"M 1 2 L 3 4\" class=\"unknown{k} c1\"/>"),
            4 => "<rect width=\"3\" height=\"3\" fill=\"url(#gone) red\"/>".into(),
            5 => "<g stroke=\"url(#gone)\"><path d=\"M 1 2 L 3 4\"/></g>".into(),
            6 => "<rect width=\"3\" height=\"3\" filter=\"url(#gone)\"/>".into(),
            7 => "<rect width=\"3\" height=\"3\" mask=\"url(#gone)\" clip-path=\"url(#gone2)\"/>".into(),
            8 => "<use xlink:href=\"#gone\"/>".into(),
            9 => "<style>div p { color:red } span{fill:blue}</style>".into(),
            10 => format!("<linearGradient id=\"w{k}\" xlink:href=\"#gone\"><stop offset=\"0\"/><stop offset=\"1\"/></linearGradient><rect width=\"3\" height=\"3\" fill=\"url(#w{k})\"/>"),
            11 => "<text>&undefined; x</text>".into(),
            12 => "<rect width=\"3\" height=\"3\" fill=\"&undefined;\"/>".into(),
            _ => "<rect width=\"3\" height=\"3\" style=\"fill:url(#gone);-x-unknown:1;marker:url(#gone)\"/>".into(),
        }
    }
    fn node(&mut self, depth: u32) -> String {
        if self.warn && self.r.chance(8) {
            return self.warning();
        }
        if self.rich && self.r.chance(30) {
            return self.rich_node(depth);
        }
        match self.r.below(20) {
            0..=9 => self.shape(),
            10..=13 if depth < 4 => {
                let p = self.presentation();
                let n = self.r.below(4);
                let id = if self.r.chance(30) {
                    let i = self.id("g");
                    format!(" id=\"{}\"", i)
                } else {
                    String::new()
                };
                let s = self.sep();
                let mut o = format!("<g{}{}>{}", id, p, s);
                for _ in 0..n {
                    o.push_str(&self.node(depth + 1));
                    o.push_str(s);
                }
                o.push_str("</g>");
                o
            }
            14 if self.text => self.text_el(),
            15 if !self.shapes.is_empty() => {
                let s = self.r.pick(&self.shapes).clone();
                format!("<use x=\"{}\" y=\"{}\" xlink:href=\"#{}\"/>", self.num(), self.num(), s)
            }
            16 => format!("<!-- comment {} -->", self.r.below(1000)),
            17 => format!("<title>T {}</title>", self.words()),
            18 => "<inkscape:grid type=\"xygrid\" id=\"grid1\"/>".to_string(),
            19 => {
                if self.warn {
                    format!("<use xlink:href=\"#nosuch{}\"/>", self.r.below(5))
                } else {
                    "<desc>some description</desc>".to_string()
                }
            }
            _ => self.shape(),
        }
    }
    fn stops(&mut self) -> String {
        let mut s = String::new();
        let n = 1 + self.r.below(4);
        for k in 0..n {
            s.push_str(&format!("<stop offset=\"{}\" stop-color=\"{}\"", ["0", "0.25", "0.5", "1"][k], ["red", "#00ff00", "blue", "#fff"][self.r.below(4)]));
            if self.r.chance(30) {
                s.push_str(" stop-opacity=\"0.5\"");
            }
            s.push_str("/>");
        }
        s
    }
    fn defs(&mut self) -> String {
        let mut o = String::from("<defs>");
        let n = self.r.below(5);
        for _ in 0..n {
            let sep = self.sep();
            o.push_str(sep);
            if self.rich && self.r.chance(50) {
                let d = self.rich_def();
                o.push_str(&d);
                continue;
            }
            match self.r.below(6) {
                0 | 1 => {
                    let id = self.id("lg");
                    let st = self.stops();
                    let href = if !self.grads.is_empty() && self.r.chance(30) { format!(" xlink:href=\"#{}\"", self.r.pick(&self.grads).clone()) } else { String::new() };
                    o.push_str(&format!("<linearGradient id=\"{}\" x1=\"{}\" gradientUnits=\"userSpaceOnUse\"{}>{}</linearGradient>", id, self.num(), href, st));
                    self.grads.push(id);
                }
                2 => {
                    let id = self.id("rg");
                    let st = self.stops();
                    o.push_str(&format!("<radialGradient id=\"{}\" cx=\"{}\" r=\"{}\" gradientTransform=\"{}\">{}</radialGradient>", id, self.num(), self.pos(), self.transform(), st));
                    self.grads.push(id);
                }
                3 => {
                    let id = self.id("flt");
                    o.push_str(&format!("<filter id=\"{}\"><feGaussianBlur stdDeviation=\"{}\"/></filter>", id, self.pos()));
                    self.filters.push(id);
                }
                4 => {
                    let id = self.id("clip");
                    o.push_str(&format!("<clipPath id=\"{}\"><rect width=\"{}\" height=\"{}\"/></clipPath>", id, self.pos(), self.pos()));
                    self.clips.push(id);
                }
                _ => {
                    let id = self.id("def");
                    o.push_str(&format!("<path id=\"{}\" d=\"{}\"/>", id, self.path_data()));
                    self.shapes.push(id);
                }
            }
        }
        o.push_str("</defs>");
        o
    }
    fn doc(&mut self, elems: usize) -> String {
        let mut s = String::new();
        if self.r.chance(50) {
            s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
        }
        if self.r.chance(25) {
            s.push_str("<!-- Generator: some tool \u{a9} -->\n");
        }
        let ent = self.r.chance(6);
        if ent {
            s.push_str("<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\" [\n<!ENTITY ns_custom \"http://www.w3.org/2000/svg\">\n<!ENTITY col \"#ff0000\">\n]>\n");
        } else if self.r.chance(10) {
            s.push_str("<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">\n");
        }
        s.push_str(&format!("<svg xmlns=\"{}\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"", if ent { "&ns_custom;" } else { "http://www.w3.org/2000/svg" }));
        s.push_str(" xmlns:inkscape=\"http://www.inkscape.org/namespaces/inkscape\"");
        if self.r.chance(50) {
            s.push_str(" version=\"1.1\"");
        }
        if self.r.chance(60) {
            s.push_str(&format!(" width=\"{}\" height=\"{}\" viewBox=\"0 0 {} {}\"", self.pos(), self.pos(), self.pos(), self.pos()));
        }
        if self.r.chance(80) {
            s.push_str(" color=\"#0a0b0c\"");
        }
        s.push('>');
        if self.r.chance(30) {
            s.push_str("<style type=\"text/css\"><![CDATA[ .c1 { fill : #00ff00 ; stroke-width:2 } rect { opacity:0.9 } ]]></style>");
        }
        if self.r.chance(20) {
            s.push_str("<metadata><rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"/></metadata>");
        }
        if self.r.chance(70) {
            s.push_str(&self.defs());
        }
        if ent {
            s.push_str("<rect width=\"5\" height=\"5\" fill=\"&col;\"/>");
        }
        let sep = self.sep();
        for _ in 0..elems {
            s.push_str(sep);
            s.push_str(&self.node(0));
        }
        s.push_str(sep);
        s.push_str("</svg>");
        if self.r.chance(60) {
            s.push('\n');
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Size {
    Tiny,
    Small,
    Medium,
    Large,
    Huge,
}

fn warning_of(r: &mut Rng) -> String {
    G { r, ids: vec![], grads: vec![], filters: vec![], clips: vec![], shapes: vec![], patterns: vec![], markers: vec![], masks: vec![], n: 700, warn: true, text: false, rich: false }.warning()
}

pub fn valid(r: &mut Rng, size: Size, warn: bool, text: bool) -> String {
    let n = match size {
        Size::Tiny => 1,
        Size::Small => 1 + r.below(7),
        Size::Medium => 10 + r.below(40),
        Size::Large => 60 + r.below(700),
        Size::Huge => 4000 + r.below(12000),
    };
    let mut g = G { r, ids: vec![], grads: vec![], filters: vec![], clips: vec![], shapes: vec![], patterns: vec![], markers: vec![], masks: vec![], n: 0, warn, text, rich: false };
    g.rich = g.r.chance(60);
    let mut s = g.doc(n);
    if warn && r.chance(70) {
        // at least one message is certain
        let w = if r.chance(50) { warning_of(r) } else { "<rect width=\"3\" height=\"4\" fill=\"url(#nowhere)\"/>".to_string() };
        s = insert_child(&s, &w, true);
    }
    s
}

/// Text and structure that later passes clean further.
pub fn multi(r: &mut Rng) -> String {
    let mut s = String::from("<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\">");
    for _ in 0..1 + r.below(4) {
        match r.below(8) {
            0 => s.push_str("<text><tspan>a</tspan> &amp; b</text>"),
            1 => s.push_str("<text> x <tspan> y </tspan> &lt; <tspan>z</tspan> </text>"),
            2 => s.push_str("<text xml:space=\"preserve\">  a  &gt; b &quot;c&quot; </text>"),
            3 => s.push_str("<text>\u{416} &#x26; &#60;<tspan fill=\"red\">q</tspan>\n</text>"),
            4 => s.push_str("<g><g fill=\"red\"><g><rect width=\"3\" height=\"4\"/></g></g></g>"),
            5 => s.push_str("<text><tspan><tspan>deep</tspan> </tspan> t</text>"),
            6 => s.push_str("<style>.a{fill:red}</style><rect class=\"a b\" width=\"1\" height=\"1\"/>"),
            _ => s.push_str("<defs><g id=\"u\"><rect width=\"2\" height=\"2\"/></g></defs><use xlink:href=\"#u\"/>"),
        }
    }
    s.push_str("</svg>");
    s
}

fn styled_group(r: &mut Rng, s: &mut String, attrs: &[(&str, &[&str])], depth: usize) {
    let some = |r: &mut Rng, s: &mut String| {
        for (k, v) in attrs {
            if r.chance(70) {
                s.push_str(&format!(" {}=\"{}\"", k, r.pick(v)));
            }
        }
    };
    s.push_str("<g");
    some(r, s);
    s.push('>');
    for _ in 0..1 + r.below(9) {
        if depth < 3 && r.chance(22) {
            styled_group(r, s, attrs, depth + 1);
        } else {
            s.push_str(&format!("<path d=\"M 1 2 L {} 4 L 5 8\"", r.range(3, 9)));
            some(r, s);
            s.push_str("/>");
        }
    }
    s.push_str("</g>");
}

/// Documents in which one pass enables the work of the next one.
pub fn layers(r: &mut Rng) -> (String, Vec<String>, &'static str) {
    let mut s = String::from("<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\">\n");
    let mut flags = Vec::new();
    let kind = match r.below(8) {
        0..=3 => {
            // common attributes are moved to groups level by level
            let all: &[(&str, &[&str])] = &[
                ("fill", &["#ff0000", "#00ff00", "#0000ff"]),
                ("stroke", &["#ff0000", "#00ff00"]),
                ("stroke-width", &["2", "3"]),
                ("opacity", &["0.5", "0.6"]),
                ("stroke-linecap", &["round", "square"]),
            ];
            let n = 2 + r.below(all.len() - 1);
            for _ in 0..1 + r.below(4) {
                styled_group(r, &mut s, &all[..n], 0);
            }
            "styles"
        }
        4 => {
            // rounding again after every transform
            for o in ["paths-coordinates-precision", "coordinates-precision", "transforms-precision"] {
                flags.push(format!("--{}={}", o, r.range(1, 5)));
            }
            for _ in 0..1 + r.below(4) {
                let f = |r: &mut Rng| format!("{}.{:05}", r.range(-99, 99), r.below(100_000));
                s.push_str(&format!("<g transform=\"rotate({})\"><path d=\"M {} {}", f(r), f(r), f(r)));
                for _ in 0..1 + r.below(9) {
                    s.push_str(" C");
                    for _ in 0..6 {
                        s.push_str(&format!(" {}", f(r)));
                    }
                }
                s.push_str(&format!("\" transform=\"scale(0.{})\"/></g>", r.range(1, 99)));
            }
            "rounding"
        }
        5 => {
            let k = 3 + r.below(8);
            s.push_str("<defs>");
            for i in 0..k {
                let t = *r.pick(&["linear", "radial"]);
                let href = if i > 0 && r.chance(60) { format!(" xlink:href=\"#g{}\"", r.below(i)) } else { String::new() };
                let a = *r.pick(&["", " gradientUnits=\"userSpaceOnUse\"", " gradientTransform=\"scale(2)\"", " x1=\"5\""]);
                s.push_str(&format!("<{}Gradient id=\"g{}\"{}{}>", t, i, href, a));
                if href.is_empty() || r.chance(40) {
                    for o in ["0", r.pick(&["0.5", "1"])] {
                        s.push_str(&format!("<stop offset=\"{}\" stop-color=\"{}\"/>", o, r.pick(&["red", "#0f0"])));
                    }
                }
                s.push_str(&format!("</{}Gradient>", t));
            }
            s.push_str("</defs>");
            for i in 0..1 + r.below(8) {
                s.push_str(&format!("<rect width=\"{}\" height=\"4\" fill=\"url(#g{})\"/>", i + 1, r.below(k)));
            }
            "gradients"
        }
        _ => {
            // removing one thing leaves another one unused
            let k = 3 + r.below(6);
            s.push_str("<defs>");
            for i in 0..k {
                let t = *r.pick(&["clipPath", "mask", "pattern", "g", "symbol", "marker"]);
                let j = r.below(k);
                let body = match r.below(6) {
                    0 => String::new(),
                    1 => format!("<rect width=\"3\" height=\"4\" {}=\"url(#c{})\"/>", r.pick(&["fill", "clip-path", "mask"]), j),
                    2 if i > 0 => format!("<use xlink:href=\"#c{}\"/>", r.below(i)),
                    3 => "<g/>".to_string(),
                    4 => "<g><g/><path d=\"M 1 1\"/></g>".to_string(),
                    _ => "<path d=\"M 1 2 L 3 4\" opacity=\"0\"/>".to_string(),
                };
                s.push_str(&format!("<{} id=\"c{}\">{}</{}>", t, i, body, t));
            }
            s.push_str("</defs>");
            for i in 0..1 + r.below(5) {
                s.push_str(&format!("<rect width=\"{}\" height=\"4\" {}=\"url(#c{})\"/>", i + 1, r.pick(&["fill", "clip-path", "mask", "marker-start", "stroke"]), r.below(k)));
            }
            s.push_str("<use xlink:href=\"#c1\"/>");
            "references"
        }
    };
    s.push_str("\n</svg>\n");
    if r.chance(20) {
        flags.extend(options(r).into_iter().filter(|f| !f.contains("precision")));
    }
    (s, flags, kind)
}

/// Wraps the content so that cleaning takes more passes.
pub fn deepen(r: &mut Rng, doc: &[u8]) -> Vec<u8> {
    let t = String::from_utf8_lossy(doc).to_string();
    let (a, b) = match (t.find("<svg"), t.rfind("</svg>")) {
        (Some(i), Some(b)) => match t[i..].find('>') {
            Some(j) if i + j + 1 <= b => (i + j + 1, b),
            _ => return doc.to_vec(),
        },
        _ => return doc.to_vec(),
    };
    let n = 1 + r.below(8);
    let mut open = String::new();
    let mut close = String::new();
    for i in 0..n {
        match r.below(6) {
            0 => open.push_str("<g>"),
            1 => open.push_str(&format!("<g fill=\"#{:03x}\">", r.below(4096))),
            2 => open.push_str(&format!("<g id=\"wrap{}\">", i)),
            3 => open.push_str(&format!("<g transform=\"translate({} {}) scale({})\">", r.range(-9, 9), r.range(0, 99), 1 + r.below(3))),
            4 => open.push_str("<g style=\"stroke:none;opacity:1\">"),
            _ => open.push_str("<g stroke-width=\"2px\"><rect width=\"1\" height=\"2\" x=\"0\"/>"),
        }
        close.insert_str(0, "</g>");
    }
    format!("{}{}{}{}{}", &t[..a], open, &t[a..b], close, &t[b..]).into_bytes()
}

pub fn pick_size(r: &mut Rng) -> Size {
    match r.below(20) {
        0..=2 => Size::Tiny,
        3..=12 => Size::Small,
        13..=17 => Size::Medium,
        _ => Size::Large,
    }
}

/// Puts markup right after the root's start tag or before its end tag.
pub fn insert_child(doc: &str, what: &str, at_end: bool) -> String {
    if at_end {
        if let Some(i) = doc.rfind("</svg>") {
            return format!("{}{}{}", &doc[..i], what, &doc[i..]);
        }
    } else if let Some(i) = doc.find("<svg ") {
        if let Some(j) = doc[i..].find('>') {
            let p = i + j + 1;
            return format!("{}{}{}", &doc[..p], what, &doc[p..]);
        }
    }
    doc.to_string()
}

pub const EVENTS: &[&str] = &[
    "onactivate", "onclick", "onfocusin", "onfocusout", "onload", "onmousedown", "onmousemove", "onmouseout", "onmouseover", "onmouseup", "onabort", "onerror",
    "onresize", "onscroll", "onunload", "onzoom", "onbegin", "onend", "onrepeat",
];

/// Puts markup at a random place between the elements of a document.
pub fn insert_somewhere(r: &mut Rng, doc: &str, what: &str) -> String {
    let v: Vec<usize> = doc.match_indices("/>").map(|(i, _)| i + 2).filter(|i| !doc[*i..].starts_with("</rdf:")).collect();
    if v.is_empty() || r.chance(25) {
        let end = r.chance(50);
        return insert_child(doc, what, end);
    }
    let i = *r.pick(&v);
    format!("{}{}{}", &doc[..i], what, &doc[i..])
}

/// Adds an attribute to a random element of a document.
pub fn add_attribute(r: &mut Rng, doc: &str, attr: &str) -> String {
    let mut v = Vec::new();
    for (i, _) in doc.match_indices('<') {
        let name: String = doc[i + 1..].chars().take_while(|c| c.is_ascii_alphabetic()).collect();
        if !name.is_empty() && name != "style" && doc[i + 1 + name.len()..].starts_with(' ') {
            v.push(i + 1 + name.len());
        }
    }
    if v.is_empty() {
        return doc.to_string();
    }
    let i = *r.pick(&v);
    format!("{} {}{}", &doc[..i], attr, &doc[i..])
}

const ELEMENTS: &[&str] = &[
    "g", "rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "text", "symbol", "use", "marker", "clipPath", "mask", "pattern",
    "linearGradient", "radialGradient", "filter", "defs", "switch", "svg", "view", "cursor", "font", "foreignObject", "title", "desc", "metadata",
    "glyphRef", "altGlyph", "feFlood", "stop", "tspan", "textPath", "a", "image",
];

/// One unsupported feature, in any element at any depth.
fn unsupported(r: &mut Rng) -> (String, &'static str) {
    let e = *r.pick(ELEMENTS);
    let (t, kind) = match r.below(10) {
        0 | 1 => (r.pick(&["<script/>", "<script type=\"application/ecmascript\"/>", "<script xlink:href=\"a.js\"/>", "<script>\n</script>", "<script>/* nothing */</script>"]).to_string(), "script"),
        2 | 3 => {
            let v = *r.pick(&["", " ", "f()", "return false", "alert('x')"]);
            (format!("<{e} {}=\"{v}\"/>", r.pick(EVENTS)), "event")
        }
        4 | 5 => {
            let a = *r.pick(&["set", "animate", "animateTransform", "animateMotion", "animateColor"]);
            (r.pick(&[
                format!("<{a}/>"),
                format!("<{a} attributeName=\"x\" begin=\"1s\" dur=\"2s\" to=\"5\"/>"),
                format!("<g><{a} id=\"an\"/></g>"),
                format!("<text>t<{a} attributeName=\"x\"/></text>"),
                format!("<circle r=\"4\" fill=\"red\"><{a} attributeName=\"r\" values=\"1;2\" repeatCount=\"indefinite\"/></circle>"),
            ]).clone(), "animation")
        }
        6 | 7 => {
            let v = *r.pick(&["en", "de, fr", "zh-Hant", "http://www.w3.org/TR/SVG11/feature#CoreAttribute"]);
            (format!("<{e} {}=\"{v}\"/>", r.pick(&["systemLanguage", "requiredFeatures"])), "conditional")
        }
        _ => {
            let mut e = e;
            while ["a", "image"].contains(&e) {
                e = *r.pick(ELEMENTS);
            }
            let v = *r.pick(&["data:image/svg+xml;base64,PHN2Zy8+", "a.svg", "a.svg#b", "http://example.com/#x", "https://example.com/x.svg?y#z", "//host/p#q", "?#x", "javascript:f()", "urn:x:y", "\u{43a}.svg#a"]);
            (format!("<{e} xlink:href=\"{v}\"/>"), "external")
        }
    };
    let mut t = t;
    for _ in 0..r.skewed(4) {
        let c = *r.pick(&["g", "g", "defs", "symbol", "clipPath", "mask", "pattern", "marker", "a", "switch", "svg", "text", "title", "metadata", "foreignObject"]);
        t = format!("<{c}>{t}</{c}>");
    }
    (t, kind)
}

/// A document with a feature svgcleaner documents as unsupported, anywhere in the tree.
pub fn refused(r: &mut Rng) -> (String, String) {
    let size = if r.chance(70) { Size::Small } else { Size::Medium };
    let d = valid(r, size, false, true);
    let far = ["other.svg#a", "http://example.com/p.svg#p", "file:///x.svg#y", "../a.svg", "grad.svg#g"];
    if r.chance(40) {
        let (what, kind) = unsupported(r);
        return (insert_somewhere(r, &d, &what), kind.to_string());
    }
    let (what, kind) = match r.below(18) {
        0 => ("<script>alert(1)</script>".to_string(), "script"),
        1 => ("<g><g><script type=\"text/javascript\"><![CDATA[ var a = 1; ]]></script></g></g>".to_string(), "script"),
        2 => (format!("<g {}=\"do()\"><rect width=\"4\" height=\"4\"/></g>", r.pick(EVENTS)), "event"),
        3 | 4 => (format!("{}=\"do()\"", r.pick(EVENTS)), "event attribute"),
        5 => ("<rect width=\"10\" height=\"10\"><animate attributeName=\"x\" from=\"0\" to=\"9\" dur=\"1s\"/></rect>".to_string(), "animation"),
        6 | 7 => (format!("<rect width=\"10\" height=\"10\"><{} attributeName=\"fill\"/></rect>", r.pick(&["set", "animate", "animateTransform", "animateMotion", "animateColor"])), "animation"),
        8 => ("<switch><g requiredFeatures=\"http://www.w3.org/TR/SVG11/feature#Shape\"><rect width=\"3\" height=\"3\"/></g></switch>".to_string(), "conditional"),
        9 => ("<switch><text systemLanguage=\"de\">x</text><text>y</text></switch>".to_string(), "conditional"),
        10 => (r.pick(&["systemLanguage=\"en\"", "requiredFeatures=\"http://www.w3.org/TR/SVG11/feature#Image\""]).to_string(), "conditional attribute"),
        11 => (format!("<use xlink:href=\"{}\"/>", r.pick(&far)), "external"),
        12 => (format!("<{}Gradient id=\"ext\" xlink:href=\"{}\"/>", r.pick(&["linear", "radial"]), r.pick(&far)), "external"),
        13 => (format!("<pattern id=\"pext\" xlink:href=\"{}\"/>", r.pick(&far)), "external"),
        14 => (format!("<filter id=\"fext\" xlink:href=\"{}\"/>", r.pick(&far)), "external"),
        15 => (format!("<text><{} xlink:href=\"{}\">t</{}></text>", "tref", r.pick(&far), "tref"), "external"),
        16 => (format!("<text>a<textPath xlink:href=\"{}\">t</textPath></text>", r.pick(&far)), "external"),
        _ => ("<defs><script/></defs>".to_string(), "script"),
    };
    if kind.ends_with("attribute") {
        return (add_attribute(r, &d, &what), kind.to_string());
    }
    (insert_somewhere(r, &d, &what), kind.to_string())
}

/// Not an SVG document at all, not XML, or with contents that mean nothing.
pub fn malformed(r: &mut Rng) -> (String, String) {
    let d = valid(r, Size::Small, false, true).replace(" color=\"#0a0b0c\"", "").replace(" color=\"#102030\"", "");
    let child = |x: &str| insert_child(&d, x, true);
    match r.below(18) {
        0 => (String::new(), "empty".into()),
        1 => (" \n\t ".into(), "blank".into()),
        2 => ("<html><body>no</body></html>".into(), "not-svg".into()),
        3 => (child("<rect x=\"unterminated").replace("</svg>", ""), "quote".into()),
        4 => (insert_child(&d, "<style>rect:hover{fill:red}</style>", false), "css".into()),
        5 => ("<?xml version=\"1.0\"?>".into(), "no-root".into()),
        6 => (format!("garbage {}", d), "garbage".into()),
        7 => (child("<linearGradient id=\"nostop\"><stop offset=\"0\"/><stop stop-color=\"red\"/></linearGradient>"), "stop without offset".into()),
        8 => (child("<g><rect width=\"9\" height=\"9\" font-variant=\"inherit\"/></g>"), "inherits nothing".into()),
        9 => (child("<rect width=\"9\" height=\"9\" lighting-color=\"currentColor\"/>"), "no current color".into()),
        10 => (child(&format!("<{k}Gradient id=\"xa\" xlink:href=\"#xb\"/><{k}Gradient id=\"xb\" xlink:href=\"#xa\"/>", k = r.pick(&["linear", "radial"]))), "crosslink".into()),
        11 => (child("<linearGradient id=\"xs\" xlink:href=\"#xs\"/>"), "self link".into()),
        12 => (child("<linearGradient id=\"pf\"/><rect width=\"9\" height=\"9\" fill=\"url(#pf) red\"/>"), "paint fallback".into()),
        13 => (child("<rect width=\"9\" height=\"9\" id=\"bf\"/><use xlink:href=\"#bf\" filter=\"url(#nofilter)\"/>"), "broken filter".into()),
        14 => (child(r.pick(&["<rect width=\"wide\" height=\"9\"/>", "<rect width=\"9\" height=\"9\" fill=\"#12\"/>", "<rect width=\"9\" height=\"9\" stroke-width=\"thick\"/>", "<g opacity=\"much\"/>"])), "value".into()),
        15 => (child(r.pick(&["<g transform=\"turn(1)\"><rect width=\"9\" height=\"9\"/></g>", "<g transform=\"scale(x)\"/>"])), "transform".into()),
        16 => (insert_child(&d, r.pick(&["<style>a > b {fill:red}</style>", "<style>@import url('a.css');</style>", "<style>rect{fill:wrong-color}</style><rect width=\"5\" height=\"5\"/>", "<style>rect{fill:red</style>"]), false), "css".into()),
        _ => (child("<rect x=\"1\" y=2 width=\"3\"/>"), "unquoted".into()),
    }
}

/// Bytes that are not UTF-8, at a random place (also inside a multi-byte character or at the very end).
pub fn not_utf8(r: &mut Rng) -> Vec<u8> {
    let size = if r.chance(70) { Size::Small } else { Size::Large };
    let mut d = valid(r, size, false, true).into_bytes();
    match r.below(5) {
        0 => d.push(0xc3),
        1 => {
            let k = r.below(d.len());
            d.insert(k, 0xff);
        }
        2 => {
            let k = r.below(d.len());
            d.splice(k..k, [0xe2, 0x82]);
        }
        3 => {
            // cut after the first byte of a multi-byte character
            let s = format!("<svg xmlns=\"http://www.w3.org/2000/svg\"><text>\u{20ac}");
            d = s.into_bytes();
            d.pop();
        }
        _ => {
            let k = r.below(d.len());
            d.splice(k..k, [0xed, 0xa0, 0x80]);
        }
    }
    d
}

/// Storage or transfer damage.
pub fn damage(r: &mut Rng, d: &[u8]) -> (Vec<u8>, String) {
    let mut d = d.to_vec();
    let mut what = Vec::new();
    for _ in 0..1 + r.skewed(4) {
        if d.is_empty() {
            break;
        }
        let n = d.len();
        let block = 1 + r.skewed(n.min(4096) - 1);
        let a = r.below(n);
        let b = (a + block).min(n);
        match r.below(19) {
            0 => {
                d[a] ^= 1 << r.below(7);
                what.push("bitflip");
            }
            1 => {
                d[a] = (r.next() & 0x7f) as u8;
                what.push("byte");
            }
            2 => {
                d.drain(a..b);
                what.push("lost");
            }
            3 => {
                let x = d[a..b].to_vec();
                d.splice(b..b, x);
                what.push("duplicated");
            }
            4 => {
                let c = r.below(n - (b - a) + 1);
                let x = d[a..b].to_vec();
                d.drain(a..b);
                let c = c.min(d.len());
                d.splice(c..c, x);
                what.push("moved");
            }
            5 => {
                for x in &mut d[a..b] {
                    *x = 0;
                }
                what.push("zeroed");
            }
            6 => {
                d.truncate(a);
                what.push("cut");
            }
            7 => {
                for x in &mut d[a..b] {
                    *x = b' ';
                }
                what.push("blanked");
            }
            8 => {
                // damage at a token: drop or double a delimiter
                let delims: Vec<usize> = (0..n).filter(|i| b"<>\"='/#;(){}&,".contains(&d[*i])).collect();
                if !delims.is_empty() {
                    let k = *r.pick(&delims);
                    if r.chance(50) {
                        d.remove(k);
                    } else {
                        let c = d[k];
                        d.insert(k, c);
                    }
                }
                what.push("delimiter");
            }
            9 => {
                // a digit changes
                let dg: Vec<usize> = (0..n).filter(|i| d[*i].is_ascii_digit()).collect();
                if !dg.is_empty() {
                    let k = *r.pick(&dg);
                    d[k] = *r.pick(b"0123456789-e.");
                }
                what.push("digit");
            }
            11 | 12 => {
                // a value lands in the place of another one, or two change places
                let q: Vec<usize> = (0..n).filter(|i| d[*i] == b'"').collect();
                let vals: Vec<(usize, usize)> = q.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0] + 1, c[1])).collect();
                // preferably the targets and sources of references
                let refs: Vec<(usize, usize)> = vals.iter().filter(|(x, y)| d[*x..*y].contains(&b'#') || d[..*x].ends_with(b" id=\"")).cloned().collect();
                let from = if refs.len() > 1 && r.chance(70) { &refs } else { &vals };
                if from.len() > 1 {
                    let (p, q) = (*r.pick(from), *r.pick(from));
                    let (x, y) = (d[p.0..p.1].to_vec(), d[q.0..q.1].to_vec());
                    let both = r.chance(40);
                    let (lo, hi) = if p.0 <= q.0 { (p, q) } else { (q, p) };
                    let (nlo, nhi) = if p.0 <= q.0 { (if both { y } else { x.clone() }, x) } else { (x.clone(), if both { y } else { x }) };
                    if lo.0 != hi.0 {
                        d.splice(hi.0..hi.1, nhi);
                        d.splice(lo.0..lo.1, nlo);
                    }
                }
                what.push("misdirected");
            }
            13 => {
                // a tag lands in the place of another one
                let w: Vec<usize> = (0..n).filter(|i| d[*i] == b'<').collect();
                if w.len() > 2 {
                    let end = |d: &[u8], x: usize| (x + 1..d.len()).find(|i| d[*i] == b'>').map(|i| i + 1).unwrap_or(d.len());
                    let (x, y) = (*r.pick(&w), *r.pick(&w));
                    let t = d[x..end(&d, x)].to_vec();
                    let e = end(&d, y);
                    d.splice(y..e, t);
                }
                what.push("tag-misdirected");
            }
            14 | 15 | 16 => {
                // exactly one element without content is lost, doubled or moved
                let w: Vec<(usize, usize)> = (0..n).filter(|i| d[*i] == b'<').filter_map(|x| (x + 1..n).find(|i| d[*i] == b'>').map(|e| (x, e + 1))).filter(|(x, e)| d[*x..*e].ends_with(b"/>")).collect();
                if !w.is_empty() {
                    let (x, e) = *r.pick(&w);
                    let t = d[x..e].to_vec();
                    match r.below(3) {
                        0 => drop(d.drain(x..e)),
                        1 => drop(d.splice(e..e, t)),
                        _ => {
                            let y = r.pick(&w).0;
                            d.splice(y..y, t);
                        }
                    }
                }
                what.push("element");
            }
            17 => {
                // exactly one attribute is lost
                let w: Vec<usize> = (1..n).filter(|i| d[*i] == b'=' && d.get(*i + 1) == Some(&b'"')).collect();
                if !w.is_empty() {
                    let k = *r.pick(&w);
                    let x = (0..k).rev().find(|i| d[*i].is_ascii_whitespace()).unwrap_or(k);
                    if let Some(e) = (k + 2..n).find(|i| d[*i] == b'"') {
                        d.drain(x..e + 1);
                    }
                }
                what.push("attribute");
            }
            _ => {
                // one tag or name overwritten with another from the same document
                let w: Vec<usize> = (0..n).filter(|i| d[*i] == b'<').collect();
                if w.len() > 1 {
                    let x = *r.pick(&w);
                    let y = *r.pick(&w);
                    let e = (x + 1..n).find(|i| d[*i] == b'>').map(|i| i + 1).unwrap_or(n);
                    let x = d[x..e].to_vec();
                    d.splice(y..y, x);
                }
                what.push("tag-copied");
            }
        }
    }
    (d, what.join("+"))
}

// ------------------------------------------------------------------ options
const BOOLS: &[&str] = &[
    "remove-comments", "remove-declarations", "remove-nonsvg-elements", "remove-unused-defs", "convert-shapes", "remove-title", "remove-desc",
    "remove-metadata", "remove-dupl-lineargradient", "remove-dupl-radialgradient", "remove-dupl-fegaussianblur", "ungroup-groups", "ungroup-defs",
    "group-by-style", "merge-gradients", "regroup-gradient-stops", "remove-invalid-stops", "remove-invisible-elements", "resolve-use", "remove-version",
    "remove-nonsvg-attributes", "remove-unreferenced-ids", "trim-ids", "remove-text-attributes", "remove-unused-coordinates", "remove-default-attributes",
    "remove-xmlns-xlink-attribute", "remove-needless-attributes", "remove-gradient-attributes", "apply-transform-to-gradients", "apply-transform-to-shapes",
    "remove-unresolved-classes", "trim-paths", "remove-dupl-cmd-in-paths", "use-implicit-cmds", "trim-colors", "simplify-transforms",
];

/// Cleaning options (only combinations the program accepts).
pub fn options(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    match r.below(10) {
        0..=3 => return v,
        4..=6 => v.push("--no-defaults".into()),
        _ => {}
    }
    let nd = !v.is_empty();
    let mut names: Vec<&str> = BOOLS.to_vec();
    let k = if r.chance(20) { 12 } else { 1 + r.below(4) };
    for _ in 0..k {
        let i = r.below(names.len());
        let n = names.swap_remove(i);
        v.push(format!("--{}={}", n, if r.chance(if nd { 80 } else { 30 }) { "yes" } else { "no" }));
    }
    // dependent path options
    if r.chance(15) {
        if r.chance(50) {
            v.push("--paths-to-relative=no".into());
            v.push("--remove-unused-segments=no".into());
            v.push("--convert-segments=no".into());
        } else {
            v.push("--paths-to-relative=yes".into());
            v.push("--apply-transform-to-paths=yes".into());
        }
    }
    if r.chance(10) && !v.iter().any(|f| f.starts_with("--trim-paths")) {
        v.push("--trim-paths=yes".into());
        v.push("--join-arcto-flags=yes".into());
    }
    if r.chance(20) {
        v.push(format!("--indent={}", r.pick(&["0", "1", "2", "3", "4", "tabs", "none"])));
    }
    if r.chance(12) {
        v.push(format!("--list-separator={}", r.pick(&["space", "comma", "comma-space"])));
    }
    if r.chance(12) {
        v.push(format!("--join-style-attributes={}", r.pick(&["no", "some", "all"])));
    }
    for n in ["coordinates-precision", "properties-precision", "transforms-precision", "paths-coordinates-precision"] {
        if r.chance(10) {
            v.push(format!("--{}={}", n, r.range(1, 12)));
        }
    }
    v
}

/// Command lines the program must reject.
pub fn bad_args(r: &mut Rng, input: &str, output: &str) -> (Vec<String>, String) {
    let (i, o) = (input.to_string(), output.to_string());
    let s = |x: &str| x.to_string();
    match r.below(20) {
        18 => {
            // bytes that are not UTF-8
            let mut v = match r.below(4) {
                0 => vec![s("--indent=1"), i, o],
                1 => vec![i, s("-c"), o],
                2 => vec![s("--quiet"), i, o],
                _ => vec![i, o],
            };
            let k = r.below(v.len());
            let mut at = r.below(v[k].len() + 1);
            while !v[k].is_char_boundary(at) {
                at -= 1;
            }
            v[k].insert(at, '\u{f8ff}');
            (v, s("not UTF-8"))
        }
        19 => (vec![s("--no-such-option\u{f8ff}"), i, o], s("not UTF-8 option")),
        12 => (vec![s("--paths-to-relative=no"), s("--remove-unused-segments=no"), i, o], s("dependent convert-segments")),
        13 => (vec![s("--convert-segments=no"), s("--paths-to-relative=no"), i, o], s("dependent remove-unused-segments")),
        14 => (vec![s("--paths-to-relative=no"), s("--remove-unused-segments=no"), s("--convert-segments=no"), s("--apply-transform-to-paths=yes"), i, o], s("dependent apply-transform")),
        15 => (vec![s("--indent"), s("wide"), i, o], s("indent")),
        16 => (vec![s("--list-separator=semicolon"), i, o], s("separator")),
        17 => (vec![s("--join-style-attributes=yes"), i, o], s("join")),
        0 => (vec![s("--no-such-option"), i, o], s("unknown")),
        1 => (vec![s("--indent=9"), i, o], s("indent")),
        2 => (vec![s("--coordinates-precision=13"), i, o], s("precision")),
        3 => (vec![s("--coordinates-precision=0"), i, o], s("precision0")),
        4 => (vec![s("--remove-title=maybe"), i, o], s("flag")),
        5 => (vec![i], s("no-output")),
        6 => (vec![s("--trim-paths=no"), s("--join-arcto-flags=yes"), i, o], s("dependent")),
        7 => (vec![s("--paths-to-relative=no"), i, o], s("dependent")),
        8 => (vec![s("/w/in.txt"), o], s("suffix")),
        9 => (vec![i, o, s("third.svg")], s("extra")),
        10 => (vec![s("--remove-title=yes"), s("--remove-title=yes"), i, o], s("twice")),
        _ => (vec![s("--transforms-precision=abc"), i, o], s("number")),
    }
}

/// Documents from the whole vocabulary: a few elements and attributes of all there are, with every
/// kind of value each takes, repeated and referenced at random.
pub fn vocabulary(r: &mut Rng) -> String {
    use crate::vocab::{ATTRS, ELEMENTS};
    const USUAL: &[&str] = &["g", "g", "g", "rect", "path", "circle", "line", "polyline", "use", "svg", "text", "tspan", "linearGradient", "radialGradient", "stop", "clipPath", "mask", "filter", "feGaussianBlur", "feColorMatrix", "feOffset", "pattern", "marker", "symbol", "defs", "image", "ellipse", "polygon", "switch", "style", "title", "desc", "metadata", "tref", "textPath", "a"];
    const WEIGHTY: &[&str] = &["fill", "stroke", "opacity", "clip-path", "mask", "filter", "xlink:href", "x", "y", "width", "height", "gradientUnits", "gradientTransform", "stroke-width", "display", "visibility", "offset", "stop-color", "stop-opacity", "stdDeviation", "marker-start", "overflow", "fill-opacity", "r", "cx", "cy", "x1", "rx", "points", "xml:space", "font-size", "text-anchor", "dx", "spreadMethod", "fx", "clipPathUnits", "maskUnits", "filterUnits", "patternUnits", "in", "type", "values"];
    let els: Vec<&str> = (0..4 + r.below(8)).map(|_| if r.chance(80) { *r.pick(USUAL) } else { *r.pick(ELEMENTS) }).collect();
    let attrs: Vec<&(&str, &str, &[&str])> = (0..4 + r.below(16)).map(|_| {
        if r.chance(60) {
            let n = *r.pick(WEIGHTY);
            ATTRS.iter().find(|a| a.0 == n).unwrap_or(&ATTRS[0])
        } else {
            r.pick(ATTRS)
        }
    }).collect();
    let total = 3 + r.below(30);
    let few = r.chance(50);
    // references to these only
    let hubs: Vec<usize> = (0..1 + r.below(5)).map(|_| r.below(total)).collect();
    let mut s = String::from("<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"");
    if r.chance(70) {
        s.push_str(" color=\"#123\"");
    }
    // with something to inherit every keyword is possible
    let heir = r.chance(25);
    if heir {
        s.push_str(" fill=\"red\" stroke=\"url(#e0)\" stroke-width=\"2\" opacity=\"0.5\" fill-opacity=\".4\" stroke-opacity=\".3\" stop-color=\"lime\" stop-opacity=\"0.7\" font-size=\"12\" clip-path=\"url(#e1)\" mask=\"none\" filter=\"url(#e2)\" display=\"inline\" visibility=\"visible\" stroke-dasharray=\"1 2 3\" overflow=\"hidden\" marker-start=\"none\" font-family=\"Arial\" text-anchor=\"end\" flood-color=\"blue\"");
    }
    s.push('>');
    let mut open: Vec<&str> = Vec::new();
    for i in 0..total {
        let e = *r.pick(&els);
        s.push_str(&format!("<{} id=\"e{}\"", e, i));
        if e == "path" {
            s.push_str(&format!(" d=\"{}\"", path_any(r)));
        }
        let mut done: Vec<&str> = Vec::new();
        let n = r.below(if few { 3 } else { 7 });
        let mut add: Vec<&(&str, &str, &[&str])> = (0..n).map(|_| *r.pick(&attrs)).collect();
        for must in match e {
            "rect" | "image" | "svg" => &["width", "height"][..],
            "circle" => &["r"],
            "use" | "tref" | "textPath" => &["xlink:href"],
            "stop" => &["offset", "stop-color"],
            "polygon" | "polyline" => &["points"],
            "feGaussianBlur" => &["stdDeviation"],
            "feColorMatrix" => &["type", "values"],
            _ => &[],
        } {
            if r.chance(85) {
                add.push(ATTRS.iter().find(|a| a.0 == *must).unwrap());
            }
        }
        for (k, kind, words) in add {
            if done.contains(k) {
                continue;
            }
            done.push(k);
            let v = if heir && words.contains(&"inherit") && r.chance(30) { "inherit".to_string() } else { value_any(r, k, kind, words, &hubs) };
            s.push_str(&format!(" {}=\"{}\"", k, v));
        }
        if r.chance(15) {
            s.push_str(&format!(" transform=\"{}\"", transform_any(r)));
        }
        if r.chance(4) {
            s.push_str(" class=\"k\"");
        }
        let text = matches!(e, "text" | "tspan" | "textPath" | "title" | "desc");
        if text && !done.contains(&"xml:space") && r.chance(20) {
            s.push_str(" xml:space=\"preserve\"");
        }
        if text && r.chance(80) {
            s.push('>');
            s.push_str(*r.pick(&["x", " a  b ", "\n", "q &amp; w", "", "a\u{a0}b", "a \u{3000}\u{2003}b c", "\u{416}\u{a0} \u{1f600}\u{2028}q", "&#160;a&#x2003; b"]));
            if e == "text" && r.chance(50) && open.len() < 5 {
                open.push(e);
                continue;
            }
            s.push_str(&format!("</{}>", e));
        } else if open.len() < 5 && r.chance(45) && e != "style" {
            s.push('>');
            open.push(e);
            continue;
        } else {
            s.push_str("/>");
        }
        while !open.is_empty() && r.chance(35) {
            s.push_str(&format!("</{}>", open.pop().unwrap()));
        }
    }
    while let Some(e) = open.pop() {
        s.push_str(&format!("</{}>", e));
    }
    s.push_str("</svg>\n");
    s
}

/// Constructs with branches of their own, in any company and with other numbers.
pub fn rare(r: &mut Rng) -> String {
    let mut d = if r.chance(50) {
        vocabulary(r)
    } else {
        "<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" color=\"#123\"><path d=\"M1 2L3 9\"/></svg>".to_string()
    };
    let one = r.chance(30);
    for i in 0..1 + r.below(5) {
        let mut t = r.pick(crate::rare::RARE).replace('@', &(if one { 0 } else { i }).to_string());
        if r.chance(50) {
            for _ in 0..1 + r.below(3) {
                // another number, or another digit in a name
                let v: Vec<usize> = t.char_indices().filter(|(_, c)| c.is_ascii_digit()).map(|(i, _)| i).collect();
                if v.is_empty() {
                    break;
                }
                let k = *r.pick(&v);
                let n = r.pick(&["0", "1", "2", "5", "0", "-1", "10", "1e9", ".5"]).to_string();
                t.replace_range(k..k + 1, &n);
            }
        }
        if r.chance(12) {
            // an attribute goes
            if let Some(k) = t.find(' ') {
                let v: Vec<usize> = t.match_indices(' ').map(|(i, _)| i).collect();
                let a = if r.chance(90) { *r.pick(&v) } else { k };
                if let Some(e) = t[a + 1..].find("=\"").and_then(|q| t[a + 1 + q + 2..].find('"').map(|e| a + 1 + q + 2 + e + 1)) {
                    t.replace_range(a..e, "");
                }
            }
        }
        d = insert_somewhere(r, &d, &t);
    }
    d
}

/// Every name of an element with a suffix, so that documents can be joined.
fn renamed(d: &str, suffix: &str) -> String {
    let mut o = String::with_capacity(d.len() + 64);
    let mut rest = d;
    loop {
        let a = rest.find(" id=\"").map(|i| i + 5);
        let b = rest.find("\"#").map(|i| i + 1);
        let c = rest.find("url(#").map(|i| i + 4);
        let k = match [a, b, c].iter().flatten().min() {
            Some(k) => *k,
            None => break,
        };
        let name = rest[k + 1..].find(|c: char| c == '"' || c == ')').map(|e| k + 1 + e).unwrap_or(rest.len());
        o.push_str(&rest[..name]);
        if name > k + 1 && !rest[k + 1..name].chars().all(|c| c.is_ascii_hexdigit()) {
            o.push_str(suffix);
        }
        rest = &rest[name..];
    }
    o.push_str(rest);
    o
}

/// One to four documents of the corpus in one, changed.
pub fn combined(r: &mut Rng) -> String {
    use crate::corpus::{DOCS, PATHS};
    let mut s = String::from("<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\">");
    let same = r.chance(20);
    for i in 0..1 + r.below(4) {
        if r.chance(10) {
            s.push_str(&format!("<path d=\"{}\"{}/>", r.pick(PATHS), if r.chance(30) { " transform=\"scale(2)\"" } else { "" }));
            continue;
        }
        let d = *r.pick(DOCS);
        let d = if same { d.to_string() } else { renamed(d, &format!("_{}", i)) };
        let head = d.find('>').map(|k| k + 1).unwrap_or(0);
        let end = d.rfind("</svg>").unwrap_or(d.len());
        if d[..head].ends_with("/>") || head > end {
            continue;
        }
        // the attributes of its root go on
        let attrs = d[4..head - 1].trim();
        let attrs: String = attrs.split("xmlns").next().unwrap_or("").to_string();
        if attrs.trim().is_empty() || !attrs.trim_end().ends_with('"') {
            s.push_str(&d[head..end]);
        } else {
            let e = *r.pick(&["g", "svg", "g", "defs"]);
            s.push_str(&format!("<{} {}>{}</{}>", e, attrs.trim(), &d[head..end], e));
        }
    }
    s.push_str("</svg>");
    if r.chance(45) {
        s = odd_values(r, &s);
    }
    if r.chance(25) {
        // attributes from the vocabulary
        for _ in 0..1 + r.below(3) {
            let (k, kind, words) = r.pick(crate::vocab::ATTRS);
            let v = value_any(r, k, kind, words, &[0]);
            s = add_attribute(r, &s, &format!("{}=\"{}\"", k, v));
        }
    }
    s
}

/// Other characters, lengths and borders in values and text.
pub fn odd_values(r: &mut Rng, d: &str) -> String {
    let mut d = d.to_string();
    for _ in 0..1 + r.below(4) {
        let start = d.find('>').unwrap_or(0);
        if r.chance(60) {
            // inside a value
            let v: Vec<usize> = d.match_indices("=\"").map(|(i, _)| i + 2).filter(|i| *i > start).collect();
            if v.is_empty() {
                continue;
            }
            let a = *r.pick(&v);
            let e = a + d[a..].find('"').unwrap_or(0);
            let at = match r.below(3) {
                0 => a,
                1 => e,
                _ => {
                    let mut k = a + r.below(e - a + 1);
                    while !d.is_char_boundary(k) {
                        k -= 1;
                    }
                    k
                }
            };
            match r.below(10) {
                0 => d.replace_range(a..e, ""),
                8 | 9 => {
                    // a unit for a number
                    let ends: Vec<usize> = (a + 1..=e).filter(|i| d.as_bytes()[i - 1].is_ascii_digit() && (*i == e || b" ,".contains(&d.as_bytes()[*i]))).collect();
                    if !ends.is_empty() {
                        let k = *r.pick(&ends);
                        d.insert_str(k, *r.pick(&["%", "mm", "em", "px", "ex", "pt", "cm", "in", "pc"]));
                    }
                }
                1 => d.replace_range(a..e, &" ".repeat(r.below(3))),
                2 => d.insert_str(at, *r.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{a0}", "\u{3000}", "\u{feff}", "e\u{301}"])),
                3 => {
                    let t = d[a..e].repeat(1 + r.below(20));
                    d.replace_range(a..e, &t);
                }
                4 => d.insert_str(at, *r.pick(&[" ", "\n", "\t", ",", ";", "-", "+", ".", "#", "(", ")", "%", "e", "0", "&#x0;", "&amp;", "&lt;"])),
                5 => d.replace_range(a..e, *r.pick(&["1e308", "-1e308", "1e-308", "1e999", "NaN", "inf", "99999999999999999999", "0.0000000000000000001", "-0", "1e", "0x10", "١"])),
                6 => d.replace_range(a..e, *r.pick(&["none", "inherit", "auto", "normal", "url(#)", "url()", "#", "#nothing", "url(#e1) none", "rgb(1,2,3)", "rgb(10%,20%,300%)", "#abcd", "hsl(1,2%,3%)", "transparent"])),
                _ => {
                    // another element's value
                    let b = *r.pick(&v);
                    let f = b + d[b..].find('"').unwrap_or(0);
                    let t = d[b..f].to_string();
                    d.replace_range(a..e, &t);
                }
            }
        } else {
            // between elements
            let v: Vec<usize> = d.match_indices('>').map(|(i, _)| i + 1).filter(|i| *i > start && *i < d.len() - 8).collect();
            if v.is_empty() {
                continue;
            }
            let a = *r.pick(&v);
            d.insert_str(a, *r.pick(&["\u{e9}", " \u{20ac} ", "\u{1f600}\u{1f600}", "\u{a0}", "\u{3000}x", "\u{200b}", "x \u{e9}  y", "a\u{a0}b", "a\u{3000} b\u{2003}\u{2003}c", "&#233;", "&amp;amp;", "<!---->", "<!-- \u{e9} -->", "<![CDATA[]]>", "<![CDATA[\u{e9}]]>", "<?p?>", "&unknown;"]));
        }
    }
    d
}

/// More levels than any stack holds.
pub fn nested(r: &mut Rng) -> Vec<u8> {
    let n = 24_000 + r.below(12_000);
    let e = *r.pick(&["g", "svg", "g", "a", "text", "switch"]);
    let a = *r.pick(&["", "", " fill=\"red\"", " id=\"a\"", " x=\"1\""]);
    let mut s = String::from("<svg xmlns=\"http://www.w3.org/2000/svg\">");
    s.push_str(&format!("<{}{}>", e, a).repeat(n));
    if r.chance(70) {
        s.push_str("<path d=\"M1 2L3 4\"/>");
        s.push_str(&format!("</{}>", e).repeat(n));
        s.push_str("</svg>");
    }
    s.into_bytes()
}

/// One child many times.
pub fn many(r: &mut Rng, d: &str) -> String {
    let t = r.pick(crate::rare::RARE);
    let mut s = String::new();
    for i in 0..*r.pick(&[70usize, 140, 270, 530]) {
        s.push_str(&t.replace('@', &i.to_string()));
    }
    insert_child(d, &s, r.chance(50))
}

pub fn number_any(r: &mut Rng) -> String {
    match r.below(9) {
        0 | 1 => "0".into(),
        2 => "1".into(),
        3 => format!("{}", r.range(-20, 200)),
        4 => format!("{}.{:06}", r.range(-9, 99), r.below(1_000_000)),
        5 => format!("{}e{}", r.range(1, 99), r.range(-9, 9)),
        6 => format!("-.{}", r.below(100)),
        7 => "0.5".into(),
        _ => format!("{}", r.range(1, 12)),
    }
}
fn length_any(r: &mut Rng) -> String {
    let n = number_any(r);
    let u = *r.pick(&["", "", "", "", "%", "px", "mm", "em", "pt", "in"]);
    format!("{}{}", n, u)
}
pub fn transform_any(r: &mut Rng) -> String {
    let mut v = Vec::new();
    for _ in 0..1 + r.below(3) {
        let (a, b) = (number_any(r), number_any(r));
        v.push(match r.below(9) {
            0 => format!("translate({} {})", a, b),
            1 => format!("translate({})", a),
            2 => format!("scale({} {})", a, b),
            3 => format!("scale({})", a),
            4 => format!("rotate({})", a),
            5 => format!("rotate({} {} 2)", a, b),
            6 => format!("skewY({})", a),
            7 => "matrix(1 0 0 1 0 0)".to_string(),
            _ => format!("matrix({} 0 0 {} {} 3)", a, a, b),
        });
    }
    v.join(*r.pick(&[" ", ",", ""]))
}
pub fn path_any(r: &mut Rng) -> String {
    let mut d = format!("M {} {}", number_any(r), number_any(r));
    for _ in 0..r.below(9) {
        let c = *r.pick(&['L', 'l', 'H', 'h', 'V', 'v', 'C', 'c', 'S', 's', 'Q', 'q', 'T', 't', 'A', 'a', 'Z', 'z', 'M', 'm']);
        let n = match c.to_ascii_lowercase() {
            'l' | 't' | 'm' => 2,
            'h' | 'v' => 1,
            'c' => 6,
            's' | 'q' => 4,
            'a' => 7,
            _ => 0,
        };
        d.push(c);
        for k in 0..n * (1 + r.below(2)) {
            if c.to_ascii_lowercase() == 'a' && (k % 7 == 3 || k % 7 == 4) {
                d.push_str(&format!(" {}", r.below(2)));
            } else if r.chance(50) {
                // points on the way: what the conversions of segments look for
                d.push_str(&format!(" {}", r.below(4) * 5));
            } else {
                d.push_str(&format!(" {}", number_any(r)));
            }
        }
    }
    d
}
fn value_any(r: &mut Rng, k: &str, kind: &str, words: &[&str], hubs: &[usize]) -> String {
    let word = !words.is_empty() && (kind.is_empty() || r.chance(25));
    if word {
        let w = *r.pick(words);
        if (w == "inherit" || w == "currentColor") && r.chance(80) {
            return words[0].to_string();
        }
        return w.to_string();
    }
    if k.ends_with("Transform") {
        return transform_any(r);
    }
    let hub = |r: &mut Rng| format!("e{}", r.pick(hubs));
    match kind {
        "len" => length_any(r),
        "lens" => (0..1 + if r.chance(80) { r.below(3) } else { r.below(9) }).map(|_| length_any(r)).collect::<Vec<_>>().join(" "),
        "num" => number_any(r),
        "nums" => (0..2 * (1 + r.below(3))).map(|_| number_any(r)).collect::<Vec<_>>().join(" "),
        "color" => r.pick(COLORS[..7].as_ref()).to_string().replace("none", "#000"),
        "paint" if r.chance(50) => r.pick(&COLORS[..7]).to_string(),
        "paint" | "iri" => format!("url(#{})", hub(r)),
        "href" => {
            if k == "xlink:href" { format!("#{}", hub(r)) } else { "auto".into() }
        }
        _ => match k {
            "type" => (*r.pick(&["matrix", "saturate", "table", "identity", "text/css", "turbulence"])).to_string(),
            "values" => (*r.pick(&["1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0", "0.5", "1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0", ""])).to_string(),
            "in" | "in2" | "result" => (*r.pick(&["SourceGraphic", "a", "b", "BackgroundImage", ""])).to_string(),
            "spreadMethod" => (*r.pick(&["pad", "reflect", "repeat"])).to_string(),
            "orient" => (*r.pick(&["auto", "0", "45"])).to_string(),
            "xml:space" => (*r.pick(&["preserve", "default"])).to_string(),
            _ => match r.below(4) {
                0 => (*r.pick(&["none", "auto", "", " x ", "\u{e9}\u{4e2d}", "url(#e1)"])).to_string(),
                _ => number_any(r),
            },
        },
    }
}

/// The same structure and names with other numbers and colors.
pub fn sibling(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    let rate = *r.pick(&[5, 30, 90]);
    let mut quote = 0u8;
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if quote == 0 && (c == b'"' || c == b'\'') {
            quote = c;
        } else if c == quote {
            quote = 0;
        } else if quote != 0 && c.is_ascii_digit() {
            let prev = v[i - 1];
            // a digit that follows a letter belongs to a name or a hexadecimal color
            if !prev.is_ascii_alphabetic() && prev != b'_' && prev != b'#' && prev != b'%' && r.chance(rate) {
                v[i] = b'1' + r.below(9) as u8;
            } else {
                while i + 1 < v.len() && v[i + 1].is_ascii_digit() {
                    i += 1;
                }
            }
        }
        i += 1;
    }
    if r.chance(30) {
        let t = String::from_utf8_lossy(&v).to_string();
        let (a, b) = *r.pick(&[("linearGradient", "radialGradient"), ("<rect", "<circle"), ("fill", "stroke"), ("<g", "<svg"), ("<path", "<rect"), ("red", "blue"), ("clip-path", "mask"), ("pattern", "marker")]);
        return t.replace(a, b).into_bytes();
    }
    v
}
