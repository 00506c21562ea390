//! The elements and attributes svgdom knows, with the keywords each attribute takes.
pub const ELEMENTS: &[&str] = &["a", "altGlyph", "altGlyphDef", "altGlyphItem", "circle", "clipPath", "color-profile", "cursor", "defs", "desc", "ellipse", "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap", "feDistantLight", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "filter", "font", "font-face", "font-face-format", "font-face-name", "font-face-src", "font-face-uri", "foreignObject", "g", "glyph", "glyphRef", "hkern", "image", "line", "linearGradient", "marker", "mask", "metadata", "missing-glyph", "path", "pattern", "polygon", "polyline", "radialGradient", "rect", "stop", "style", "svg", "switch", "symbol", "text", "textPath", "title", "tref", "tspan", "use", "view"];
/// Name, kind of value, keywords.
pub const ATTRS: &[(&str, &str, &[&str])] = &[
    ("accent-height", "str", &[]),
    ("accumulate", "str", &[]),
    ("additive", "str", &[]),
    ("alignment-baseline", "", &["auto", "baseline", "before-edge", "text-before-edge", "middle", "central", "after-edge", "text-after-edge", "ideographic", "alphabetic", "hanging", "mathematical", "inherit"]),
    ("alphabetic", "str", &[]),
    ("amplitude", "str", &[]),
    ("arabic-form", "str", &[]),
    ("ascent", "str", &[]),
    ("attributeName", "str", &[]),
    ("attributeType", "str", &[]),
    ("azimuth", "str", &[]),
    ("baseFrequency", "nums", &[]),
    ("baseline-shift", "len", &["baseline", "sub", "super", "inherit"]),
    ("baseProfile", "str", &[]),
    ("bbox", "str", &[]),
    ("bias", "str", &[]),
    ("by", "str", &[]),
    ("calcMode", "str", &[]),
    ("cap-height", "str", &[]),
    ("clip", "str", &[]),
    ("clip-path", "iri", &["none", "inherit"]),
    ("clip-rule", "", &["nonzero", "evenodd", "inherit"]),
    ("clipPathUnits", "", &["userSpaceOnUse", "objectBoundingBox"]),
    ("color", "color", &["inherit"]),
    ("color-interpolation", "", &["auto", "sRGB", "linearRGB", "inherit"]),
    ("color-interpolation-filters", "", &["auto", "sRGB", "linearRGB", "inherit"]),
    ("color-profile", "href", &["auto", "sRGB", "inherit"]),
    ("color-rendering", "", &["auto", "optimizeSpeed", "optimizeQuality", "inherit"]),
    ("contentScriptType", "str", &[]),
    ("contentStyleType", "str", &[]),
    ("cursor", "", &["auto", "crosshair", "default", "pointer", "move", "e-resize", "ne-resize", "nw-resize", "n-resize", "se-resize", "sw-resize", "s-resize", "w-resize", "text", "wait", "help", "inherit"]),
    ("cx", "len", &[]),
    ("cy", "len", &[]),
    ("descent", "str", &[]),
    ("diffuseConstant", "str", &[]),
    ("direction", "", &["ltr", "rtl", "inherit"]),
    ("display", "", &["inline", "block", "list-item", "run-in", "compact", "marker", "table", "inline-table", "table-row-group", "table-header-group", "table-footer-group", "table-row", "table-column-group", "table-column", "table-cell", "table-caption", "none", "inherit"]),
    ("divisor", "str", &[]),
    ("dominant-baseline", "", &["auto", "use-script", "no-change", "reset-size", "ideographic", "alphabetic", "hanging", "mathematical", "central", "middle", "text-after-edge", "text-before-edge", "inherit"]),
    ("dur", "str", &[]),
    ("dx", "lens", &[]),
    ("dy", "lens", &[]),
    ("edgeMode", "str", &[]),
    ("elevation", "str", &[]),
    ("enable-background", "", &["accumulate", "inherit"]),
    ("exponent", "str", &[]),
    ("externalResourcesRequired", "str", &[]),
    ("fill", "paint", &["none", "currentColor", "inherit"]),
    ("fill-opacity", "num", &["inherit"]),
    ("fill-rule", "", &["nonzero", "evenodd", "inherit"]),
    ("filter", "iri", &["none", "inherit"]),
    ("filterRes", "str", &[]),
    ("filterUnits", "", &["userSpaceOnUse", "objectBoundingBox"]),
    ("flood-color", "color", &["inherit", "currentColor"]),
    ("flood-opacity", "num", &["inherit"]),
    ("font", "str", &[]),
    ("font-family", "", &["inherit"]),
    ("font-size", "len", &["xx-small", "x-small", "small", "medium", "large", "x-large", "xx-large", "larger", "smaller", "inherit"]),
    ("font-size-adjust", "num", &["none", "inherit"]),
    ("font-stretch", "", &["normal", "wider", "narrower", "ultra-condensed", "extra-condensed", "condensed", "semi-condensed", "semi-expanded", "expanded", "extra-expanded", "ultra-expanded", "inherit"]),
    ("font-style", "", &["normal", "italic", "oblique", "inherit"]),
    ("font-variant", "", &["normal", "small-caps", "inherit"]),
    ("font-weight", "", &["normal", "bold", "bolder", "lighter", "100", "200", "300", "400", "500", "600", "700", "800", "900", "inherit"]),
    ("format", "str", &[]),
    ("from", "str", &[]),
    ("fx", "len", &[]),
    ("fy", "len", &[]),
    ("g1", "str", &[]),
    ("g2", "str", &[]),
    ("glyph-name", "str", &[]),
    ("glyph-orientation-horizontal", "str", &[]),
    ("glyph-orientation-vertical", "", &["auto", "inherit"]),
    ("glyphRef", "str", &[]),
    ("gradientTransform", "str", &[]),
    ("gradientUnits", "", &["userSpaceOnUse", "objectBoundingBox"]),
    ("hanging", "str", &[]),
    ("height", "len", &[]),
    ("horiz-adv-x", "str", &[]),
    ("horiz-origin-x", "str", &[]),
    ("horiz-origin-y", "str", &[]),
    ("ideographic", "str", &[]),
    ("image-rendering", "", &["auto", "optimizeSpeed", "optimizeQuality", "inherit"]),
    ("in", "str", &[]),
    ("in2", "str", &[]),
    ("intercept", "str", &[]),
    ("k", "str", &[]),
    ("k1", "str", &[]),
    ("k2", "str", &[]),
    ("k3", "str", &[]),
    ("k4", "str", &[]),
    ("kernelMatrix", "str", &[]),
    ("kernelUnitLength", "str", &[]),
    ("kerning", "len", &["auto", "inherit"]),
    ("keyPoints", "str", &[]),
    ("keySplines", "str", &[]),
    ("keyTimes", "str", &[]),
    ("lang", "str", &[]),
    ("lengthAdjust", "str", &[]),
    ("letter-spacing", "len", &["normal", "inherit"]),
    ("lighting-color", "color", &["inherit", "currentColor"]),
    ("limitingConeAngle", "str", &[]),
    ("line-height", "str", &[]),
    ("local", "str", &[]),
    ("marker", "iri", &["none", "inherit"]),
    ("marker-end", "iri", &["none", "inherit"]),
    ("marker-mid", "iri", &["none", "inherit"]),
    ("marker-start", "iri", &["none", "inherit"]),
    ("markerHeight", "str", &[]),
    ("markerUnits", "str", &[]),
    ("markerWidth", "str", &[]),
    ("mask", "iri", &["none", "inherit"]),
    ("maskContentUnits", "", &["userSpaceOnUse", "objectBoundingBox"]),
    ("maskUnits", "", &["userSpaceOnUse", "objectBoundingBox"]),
    ("mathematical", "str", &[]),
    ("max", "str", &[]),
    ("media", "str", &[]),
    ("method", "str", &[]),
    ("min", "str", &[]),
    ("mode", "str", &[]),
    ("name", "str", &[]),
    ("numOctaves", "str", &[]),
    ("offset", "len", &[]),
    ("opacity", "num", &["inherit"]),
    ("operator", "str", &[]),
    ("order", "str", &[]),
    ("orient", "str", &[]),
    ("orientation", "str", &[]),
    ("origin", "str", &[]),
    ("overflow", "", &["auto", "visible", "hidden", "scroll", "inherit"]),
    ("overline-position", "str", &[]),
    ("overline-thickness", "str", &[]),
    ("panose-1", "str", &[]),
    ("path", "str", &[]),
    ("pathLength", "str", &[]),
    ("patternContentUnits", "", &["userSpaceOnUse", "objectBoundingBox"]),
    ("patternTransform", "str", &[]),
    ("patternUnits", "", &["userSpaceOnUse", "objectBoundingBox"]),
    ("pointer-events", "", &["visiblePainted", "visibleFill", "visibleStroke", "visible", "painted", "fill", "stroke", "all", "none", "inherit"]),
    ("points", "nums", &[]),
    ("pointsAtX", "str", &[]),
    ("pointsAtY", "str", &[]),
    ("pointsAtZ", "str", &[]),
    ("preserveAlpha", "str", &[]),
    ("preserveAspectRatio", "str", &[]),
    ("primitiveUnits", "", &["userSpaceOnUse", "objectBoundingBox"]),
    ("r", "len", &[]),
    ("radius", "str", &[]),
    ("refX", "str", &[]),
    ("refY", "str", &[]),
    ("rendering-intent", "str", &[]),
    ("repeatCount", "str", &[]),
    ("repeatDur", "str", &[]),
    ("restart", "str", &[]),
    ("result", "str", &[]),
    ("rotate", "str", &[]),
    ("rx", "len", &[]),
    ("ry", "len", &[]),
    ("scale", "str", &[]),
    ("seed", "str", &[]),
    ("shape-rendering", "", &["auto", "optimizeSpeed", "crispEdges", "geometricPrecision", "inherit"]),
    ("slope", "str", &[]),
    ("spacing", "str", &[]),
    ("specularConstant", "str", &[]),
    ("specularExponent", "str", &[]),
    ("spreadMethod", "", &["pad", "reflect", "repeat"]),
    ("startOffset", "str", &[]),
    ("stdDeviation", "nums", &[]),
    ("stemh", "str", &[]),
    ("stemv", "str", &[]),
    ("stitchTiles", "str", &[]),
    ("stop-color", "color", &["inherit", "currentColor"]),
    ("stop-opacity", "num", &["inherit"]),
    ("strikethrough-position", "str", &[]),
    ("strikethrough-thickness", "str", &[]),
    ("string", "str", &[]),
    ("stroke", "paint", &["none", "currentColor", "inherit"]),
    ("stroke-dasharray", "lens", &["none", "inherit"]),
    ("stroke-dashoffset", "len", &["inherit"]),
    ("stroke-linecap", "", &["butt", "round", "square", "inherit"]),
    ("stroke-linejoin", "", &["miter", "round", "bevel", "inherit"]),
    ("stroke-miterlimit", "len", &["inherit"]),
    ("stroke-opacity", "num", &["inherit"]),
    ("stroke-width", "len", &["inherit"]),
    ("surfaceScale", "str", &[]),
    ("tableValues", "str", &[]),
    ("target", "str", &[]),
    ("targetX", "str", &[]),
    ("targetY", "str", &[]),
    ("text-anchor", "", &["start", "middle", "end", "inherit"]),
    ("text-decoration", "", &["none", "underline", "overline", "line-through", "blink", "inherit"]),
    ("text-rendering", "", &["auto", "optimizeSpeed", "optimizeLegibility", "geometricPrecision", "inherit"]),
    ("textLength", "str", &[]),
    ("title", "str", &[]),
    ("to", "str", &[]),
    ("type", "str", &[]),
    ("u1", "str", &[]),
    ("u2", "str", &[]),
    ("underline-position", "str", &[]),
    ("underline-thickness", "str", &[]),
    ("unicode", "str", &[]),
    ("unicode-bidi", "", &["normal", "embed", "bidi-override", "inherit"]),
    ("unicode-range", "str", &[]),
    ("units-per-em", "str", &[]),
    ("v-alphabetic", "str", &[]),
    ("v-hanging", "str", &[]),
    ("v-ideographic", "str", &[]),
    ("v-mathematical", "str", &[]),
    ("values", "str", &[]),
    ("vert-adv-y", "str", &[]),
    ("vert-origin-x", "str", &[]),
    ("vert-origin-y", "str", &[]),
    ("viewTarget", "str", &[]),
    ("visibility", "", &["visible", "hidden", "collapse", "inherit"]),
    ("width", "len", &[]),
    ("widths", "str", &[]),
    ("word-spacing", "len", &["normal", "inherit"]),
    ("writing-mode", "", &["lr-tb", "rl-tb", "tb-rl", "lr", "rl", "tb", "inherit"]),
    ("x", "lens", &[]),
    ("x-height", "str", &[]),
    ("x1", "len", &[]),
    ("x2", "len", &[]),
    ("xChannelSelector", "str", &[]),
    ("xlink:actuate", "str", &[]),
    ("xlink:arcrole", "str", &[]),
    ("xlink:href", "href", &[]),
    ("xlink:role", "str", &[]),
    ("xlink:show", "str", &[]),
    ("xlink:title", "str", &[]),
    ("xlink:type", "str", &[]),
    ("xml:base", "str", &[]),
    ("xml:lang", "str", &[]),
    ("xml:space", "str", &[]),
    ("y", "lens", &[]),
    ("y1", "len", &[]),
    ("y2", "len", &[]),
    ("yChannelSelector", "str", &[]),
    ("z", "str", &[]),
];
