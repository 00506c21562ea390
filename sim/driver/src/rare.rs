//! Constructs that single branches of the cleaning tasks look for. '@' is replaced by a number.
pub const RARE: &[&str] = &[
    // filters
    r##"<filter id="f@"><feColorMatrix type="matrix" values="1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0"/></filter><g filter="url(#f@)"><rect width="5" height="5"/></g>"##,
    r##"<filter id="f@"><feColorMatrix type="matrix" values="1 0 0 0 0 0 1 0 0 0"/></filter><rect width="5" height="5" filter="url(#f@)"/>"##,
    r##"<filter id="f@"><feColorMatrix type="saturate" values="0"/></filter><rect width="5" height="5" filter="url(#f@)"/>"##,
    r##"<filter id="f@"/><g filter="url(#f@)"><rect width="5" height="5"/></g><use xlink:href="#f@"/>"##,
    r##"<filter id="f@"><feGaussianBlur stdDeviation="2"/></filter><filter id="h@"><feGaussianBlur stdDeviation="2"/></filter><g filter="url(#f@)"><path d="M0 0L5 5" filter="url(#h@)"/></g>"##,
    r##"<filter id="f@"><feGaussianBlur stdDeviation="2 3"/></filter><filter id="h@" x="-5"><feGaussianBlur stdDeviation="2 3"/></filter><path d="M0 0L5 5" filter="url(#h@)"/><g filter="url(#f@)"/>"##,
    r##"<filter id="f@"><feGaussianBlur stdDeviation="2"/><feOffset dx="1"/></filter><filter id="h@" xlink:href="#f@"/><filter id="i@"><feFlood/></filter><filter id="j@"><feGaussianBlur in="SourceAlpha" stdDeviation="2"/></filter><path d="M0 0L5 5" filter="url(#h@)"/><path d="M0 0L5 5" filter="url(#j@)"/>"##,
    r##"<filter id="f@"><feGaussianBlur id="b@" stdDeviation="2"/></filter><filter id="g@"><feGaussianBlur stdDeviation="2"/></filter><use xlink:href="#b@"/><path d="M1 1h5" filter="url(#g@)"/>"##,
    r##"<filter id="f@" filterUnits="userSpaceOnUse" x="-10%" y="-10%" width="120%" height="120%"><feGaussianBlur stdDeviation="0"/></filter><rect width="5" height="5" filter="url(#f@)"/>"##,
    // gradients
    r##"<linearGradient id="p@"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></linearGradient><linearGradient id="q@" xlink:href="#p@" gradientUnits="userSpaceOnUse" x1="1"/><linearGradient id="r@" xlink:href="#p@" x1="2"/><linearGradient id="s@" xlink:href="#p@" gradientUnits="objectBoundingBox" x1="3"/><rect width="3" height="3" fill="url(#q@)"/><rect width="3" height="3" fill="url(#r@)"/><rect width="3" height="3" fill="url(#s@)"/>"##,
    r##"<linearGradient id="p@"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></linearGradient><linearGradient id="q@" xlink:href="#p@" gradientUnits="userSpaceOnUse" x1="1"/><radialGradient id="r@" xlink:href="#p@" gradientUnits="userSpaceOnUse" r="2"/><linearGradient id="s@" xlink:href="#p@" x1="3"/><linearGradient id="t@" xlink:href="#p@" gradientUnits="userSpaceOnUse" y2="9"/><g fill="url(#q@)" stroke="url(#r@)"><rect width="3" height="3" fill="url(#s@)"/><rect width="3" height="3" fill="url(#t@)"/><path d="M0 0h4v4z"/></g>"##,
    r##"<radialGradient id="p@" gradientUnits="userSpaceOnUse" cx="5" cy="6" fx="4" fy="7" r="3" gradientTransform="scale(2)"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></radialGradient><rect width="3" height="3" fill="url(#p@)"/>"##,
    r##"<radialGradient id="p@" gradientUnits="userSpaceOnUse" cx="5" cy="6" fx="5" fy="6" r="3" gradientTransform="matrix(2 0 0 2 5 6)"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></radialGradient><circle r="3" fill="url(#p@)" transform="scale(3)"/>"##,
    r##"<linearGradient id="p@" gradientUnits="userSpaceOnUse" x1="5" y2="6" gradientTransform="translate(2 3)"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></linearGradient><linearGradient id="q@" xlink:href="#p@" gradientTransform="scale(3)"/><rect width="3" height="3" fill="url(#q@)"/>"##,
    r##"<linearGradient id="p@"><stop offset="50%" stop-color="red"/><stop offset="0.5" stop-color="blue"/><stop offset="0.5" stop-color="blue"/><stop offset="0.2" stop-color="lime"/></linearGradient><rect width="3" height="3" stroke="url(#p@)"/>"##,
    r##"<linearGradient id="p@"><stop offset="0" stop-color="red" stop-opacity="0.3"/></linearGradient><rect width="3" height="3" fill="url(#p@)" stroke="url(#p@)"/><text fill="url(#p@)">t</text>"##,
    r##"<linearGradient id="p@"/><rect width="3" height="3" fill="url(#p@)" stroke="url(#p@)"/><radialGradient id="q@" xlink:href="#p@"/><path d="M0 0h9" stroke="url(#q@)"/>"##,
    r##"<linearGradient id="p@"><stop offset="0" stop-color="red"/><stop offset="1"/></linearGradient><linearGradient id="q@"><stop offset="0" stop-color="red"/><stop offset="1"/></linearGradient><linearGradient id="r@" xlink:href="#q@"/><radialGradient id="s@" xlink:href="#p@"/><path d="M0 0h9" stroke="url(#r@)" fill="url(#s@)"/><path d="M0 0h9v9" stroke="url(#q@)" fill="url(#p@)"/>"##,
    r##"<linearGradient id="p@" x1="0%" x2="100%" spreadMethod="pad"><stop offset="0" stop-color="red"/><stop offset="1"/></linearGradient><linearGradient id="q@" x2="100%"><stop offset="0" stop-color="red"/><stop offset="1"/></linearGradient><path d="M0 0h9" stroke="url(#q@)" fill="url(#p@)"/>"##,
    r##"<radialGradient id="p@" r="5"><stop offset="0" stop-color="red"/><stop offset="1"/></radialGradient><radialGradient id="q@" r="5"><stop offset="0" stop-color="red"/><stop offset="1"/></radialGradient><clipPath id="c@"><use xlink:href="#u@"/></clipPath><path id="u@" d="M0 0h9" stroke="url(#q@)" fill="url(#p@)" clip-path="url(#c@)"/>"##,
    r##"<defs><linearGradient id="p@"><stop offset="0" stop-color="red"/><stop offset="1"/></linearGradient><linearGradient id="q@" xlink:href="#p@"/></defs><linearGradient id="r@" xlink:href="#q@" x1="4"/><path d="M0 0h9" fill="url(#r@)"/>"##,
    // text
    r##"<text xml:space="preserve">a  b</text><text xml:space="preserve">ab</text><text xml:space="preserve"> ab</text><text xml:space="preserve"/><text xml:space="preserve"><tspan>a</tspan><tspan>&#9;b&#10;&#10;c</tspan></text>"##,
    r##"<g xml:space="preserve"><text>a  b<tspan xml:space="default"> c </tspan></text></g><g xml:space="preserve"/>"##,
    r##"<text x="0" y="0 1 2" dx="" dy="0"><tspan x="" y="0">x</tspan><tspan/></text>"##,
    r##"<g font-family="Arial" text-anchor="middle" letter-spacing="2" word-spacing="1" writing-mode="tb"><rect width="4" height="4" font-size="4"/></g>"##,
    r##"<text id="t@">q<tspan font-weight="bold">w</tspan></text><text><tref xlink:href="#t@"/></text><text><textPath xlink:href="#d@">w</textPath></text><path id="d@" d="M0 0C5 5 5 5 9 9"/>"##,
    r##"<text>&lt;&amp;&quot;&#x20AC;<![CDATA[ <b> ]]></text><desc><![CDATA[ ]]></desc>"##,
    // coordinates and defaults
    r##"<rect x="0" y="0" width="4" height="5" rx="2" ry="2"/><rect width="4" height="5" rx="2" ry="3"/><rect width="4" height="5" ry="2"/><rect width="4" height="5" rx="0" ry="0"/>"##,
    r##"<mask id="m@" x="-10%" y="-10%" width="120%" height="120%"><rect width="4" height="4"/></mask><rect width="4" height="4" mask="url(#m@)"/><pattern id="n@" width="0" height="0"/><marker id="o@" refX="0" refY="0" orient="0" markerWidth="3"><path d="M0 0h1"/></marker><line x1="0" y1="0" x2="0" y2="0" marker-end="url(#o@)"/><ellipse cx="0" cy="0" rx="3" ry="4"/>"##,
    r##"<font-face units-per-em="1000" slope="0"/><filter id="f@"><feComponentTransfer><feFuncR type="linear" slope="1" intercept="0"/></feComponentTransfer></filter><rect width="3" height="3" filter="url(#f@)"/>"##,
    r##"<svg x="0" y="0" width="100%" height="100%" overflow="hidden" version="1.1" baseProfile="tiny"><svg overflow="visible"/><marker overflow="hidden"/><pattern overflow="auto"/></svg>"##,
    r##"<g fill="#000" visibility="visible" display="inline" opacity="1"><g fill="black" stroke="none" stroke-width="1"><path fill="#000000" d="M0 0h4" stroke-linejoin="miter" stroke-dasharray="none"/></g></g>"##,
    r##"<g stroke="none" stroke-width="5" stroke-linecap="round"><path d="M0 0h4" fill="none"/><path d="M0 0h4" stroke="red"/></g><path d="M0 0h4v4" stroke="url(#nothing)" fill="none"/><rect width="1" height="1" fill="none" stroke-opacity="0" stroke="red"/>"##,
    // segments
    r##"<path d="M 5 5 C 5 6 5 8 5 9 C 6 9 8 9 9 9 C 10 10 12 12 14 14 C 14 14 15 9 4 3 S 5 5 5 5 L 5 5 H 5 V 5"/>"##,
    r##"<path d="M 5 5 C 5 4 5 8 5 9 C 5 9 5 9 5 9 C 5 12 5 10 5 15 L 5 15 L 5 14 z l 0 0 z z m 3 3 m 4 4 M 5 5"/>"##,
    r##"<path d="M 5 5 5 5 z" stroke="red" stroke-linecap="round"/><path d="M 5 5 h 0 v 0" stroke="red"/><path d="M 5 5"/><path d=""/><path/><path d="z"/><path d="L 5 5"/><path d="M 5 5 L 5"/>"##,
    r##"<path transform="scale(2)" d="M 5 5 h 4 v 4 H 1 V 1 c 1 2 3 4 5 6 s 1 2 3 4 q 1 2 3 4 t 5 5 a 4 5 0 0 1 4 4 z" stroke="red"/><path transform="translate(3 4)" d="M 5 5 h 4 v 4 H 1 V 1 C 1 2 3 4 5 6 A 4 5 30 1 0 4 4"/>"##,
    r##"<path transform="scale(-1 1)" d="M 5 5 h 4"/><path transform="rotate(45)" d="M 5 5 h 4 v 4"/><path transform="skewX(30)" d="M 5 5 A 4 5 0 0 1 4 4"/><path transform="scale(0)" d="M 5 5 h 4"/><path transform="scale(2 3)" d="M 5 5 h 4"/>"##,
    r##"<path id="p@" transform="scale(2)" d="M 5 5 h 4 v 9"/><use xlink:href="#p@" x="3"/><path transform="scale(2)" stroke-width="3" stroke="red" d="M 5 5 h 4 v 9" stroke-dasharray="1 2" stroke-dashoffset="4"/>"##,
    r##"<path d="M5 5a0 0 0 0 1 4 4a4 4 0 1 1 0 0A 1e5 1 0 0 0 5 5T 5 5 Q 5 5 5 5 T 6 6S 1 1 1 1"/><path marker-start="url(#n)" d="M0 0L0 0L0 0 1 1"/>"##,
    // shapes
    r##"<line x1="1" y2="5" stroke="red"/><line stroke="red"/><polyline points="1 2"/><polyline points="1 2 3 4" stroke="red"/><polygon points="1 2 3 4 1 2"/><polyline points=""/><rect width="4" height="4" rx="1"/><rect width="4mm" height="4"/><rect width="-4" height="4"/><circle r="0"/><circle r="-1"/><ellipse rx="3"/>"##,
    r##"<rect width="4" height="4" transform="scale(2)" stroke="red" stroke-width="2"/><circle r="3" cx="1" transform="translate(3 3)" fill="red"/><ellipse rx="2" ry="3" transform="scale(2)"/><line x2="4" stroke="red" transform="scale(3)"/><rect width="4" height="4" rx="1" transform="scale(.5)" stroke="red" stroke-width="5%"/>"##,
    // use and groups
    r##"<defs><rect id="u@" width="4" height="4"/></defs><use xlink:href="#u@" x="4" y="5" transform="scale(2)"/>"##,
    r##"<defs><rect id="u@" width="4" height="4" x="1mm"/></defs><use xlink:href="#u@" x="4mm" y="5"/>"##,
    r##"<defs><g id="u@"><rect width="4" height="4"/><use id="v@" xlink:href="#w@"/></g><circle r="4" id="w@"/></defs><use xlink:href="#u@" id="x@"/><use xlink:href="#x@"/>"##,
    r##"<defs><symbol id="u@" viewBox="0 0 4 4"><rect width="4" height="4"/></symbol><svg id="v@"><path d="M1 1h3"/></svg></defs><use xlink:href="#u@" width="4"/><use xlink:href="#v@" height="5" fill="red"/>"##,
    r##"<g id="g@"><g/><g><rect width="4" height="4"/></g></g><use xlink:href="#g@"/><g opacity="0.5"><g opacity="0.4"><path d="M0 0h6"/></g></g><g transform="scale(2)"><g transform="rotate(4)"><path d="M0 0h6" transform="translate(4)"/></g></g>"##,
    r##"<g clip-path="url(#c@)"><g mask="url(#m@)"><rect width="4" height="4"/></g></g><clipPath id="c@"><g><rect width="4" height="4"/></g></clipPath><mask id="m@"/>"##,
    r##"<clipPath id="c@"/><rect width="4" height="4" clip-path="url(#c@)"/><mask id="m@"><g/></mask><g mask="url(#m@)"><rect width="4" height="4"/></g><pattern id="p@"/><rect width="4" height="4" fill="url(#p@)"/>"##,
    r##"<g transform="scale(2)" fill="red"><path d="M0 0h6"/></g><g transform="scale(2)" fill="red"><path d="M0 0h7"/></g><g transform="scale(2)" fill="red"><path d="M0 0h8"/></g>"##,
    r##"<g><path transform="scale(2)" fill="red" d="M0 0h6"/><path transform="scale(2)" fill="red" d="M0 0h7"/><path fill="red" transform="scale(2)" d="M0 0h8"/></g><g transform="translate(1)"><rect width="1" height="3" transform="rotate(45)" fill="red"/><rect width="1" height="4" transform="rotate(45)" fill="red"/></g>"##,
    r##"<g fill="red"><rect width="1" height="3" fill="lime"/><rect width="1" height="4" fill="lime"/></g><g fill="red"><g fill="lime"><rect width="4" height="1"/></g></g>"##,
    r##"<switch><g><rect width="1" height="3"/></g><text>t</text></switch><a xlink:href="#s@"><g id="s@"><rect width="1" height="3"/></g></a><a xlink:href="http://example.com"><g/></a>"##,
    r##"<defs><defs><linearGradient id="p@"><stop offset="0"/><stop offset="1" stop-color="red"/></linearGradient></defs><g><defs><rect id="d@" width="1" height="1"/></defs></g></defs><rect width="4" height="4" fill="url(#p@)"/><defs/><use xlink:href="#d@"/>"##,
    r##"<image width="4" height="4" xlink:href="data:image/png;base64,iVBORw0KGgo="/><image xlink:href="#g"/><image width="0" height="4" xlink:href="a.png"/>"##,
    // styles
    r##"<style type="text/css">.k@{fill:red;stroke:url(#p@)} #i@{opacity:.5} rect{stroke-width:2}</style><rect id="i@" class="k@ z" width="4" height="4" style="fill:lime;;stroke : blue"/><linearGradient id="p@"><stop offset="0"/><stop style="stop-color:red" offset="1"/></linearGradient>"##,
    r##"<rect style="fill:red;fill:lime;filter:none;marker:none;font:12px Arial" width="4" height="4"/><path style="" d="M0 0h5"/><g style="-x-y:z;enable-background:new"/>"##,
    r##"<metadata><rdf:RDF xmlns:rdf="r"><a/></rdf:RDF></metadata><sodipodi:namedview xmlns:sodipodi="s" id="n@"/><path sodipodi:type="arc" xmlns:sodipodi="s" d="M0 0h3"/><title/><desc>  </desc><!-- c --><?pi x?>"##,
    r##"<g visibility="hidden"><rect width="4" height="4" visibility="visible"/></g><g display="none"><rect id="h@" width="4" height="4"/></g><use xlink:href="#h@"/><g opacity="0"><use xlink:href="#h@"/></g>"##,
    r##"<rect width="4" height="4" transform="matrix(1 0 0 1 0 0)"/><g transform=""><rect width="4" height="4" transform="translate(0)"/></g><rect width="4" height="4" transform="scale(1e-9)"/><rect width="4" height="4" transform="scale(2)"/>"##,
    r##"<g color="red"><rect width="4" height="4" fill="currentColor" stroke="inherit"/><g fill="inherit" font-size="2em"><text font-size="50%">q</text></g></g>"##,
];
