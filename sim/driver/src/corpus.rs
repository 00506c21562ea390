//! Documents of the shapes the tasks of svgcleaner look for, as in its own tests: starting points for
//! mutation and combination.
pub const DOCS: &[&str] = &[
    r###"<svg> <linearGradient x1="10" x2="10" y1="10" y2="10" gradientTransform="translate(10 20)"/> </svg>"###,
    r###"<svg> <linearGradient x1="20" x2="20" y1="30" y2="30"/> </svg>"###,
    r###"<svg> <radialGradient cx="10" cy="10" fx="10" fy="10" r="5" gradientTransform="matrix(2 0 0 2 10 20)"/> </svg>"###,
    r###"<svg> <radialGradient cx="30" cy="40" fx="30" fy="40" r="10"/> </svg>"###,
    r###"<svg> <linearGradient gradientTransform="translate(10 20)"/> </svg>"###,
    r###"<svg> <linearGradient gradientTransform="matrix(1 0 0.05240778 1 0 0)" x1="10" x2="10" y1="10" y2="10"/> </svg>"###,
    r###"<svg> <linearGradient gradientTransform="scale(1.5 2)" x1="10" x2="10" y1="10" y2="10"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1" gradientTransform="translate(10 20)" x1="10" x2="10" y1="10" y2="10"/> <linearGradient xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <g transform="translate(10 20)"> <rect transform="scale(2)"/> <path/> </g> </svg>"###,
    r###"<svg> <g> <rect transform="matrix(2 0 0 2 10 20)"/> <path transform="translate(10 20)"/> </g> </svg>"###,
    r###"<svg> <g transform="scale(10 20)"> <path d="M 10 20 L 30 40"/> </g> <g transform="scale(10 20)"> <rect d="M 10 20 L 30 40"/> </g> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <g fill="url(#lg1)"> <rect/> </g> <g fill="url(#lg1)"> <path/> </g> </svg>"###,
    r###"<svg> <g transform="scale(10 20)"> <g/> <rect/> </g> </svg>"###,
    r###"<svg> <g transform="scale(10)"> <rect transform="scale(10 30)"/> </g> </svg>"###,
    r###"<svg> <g transform="scale(10)"> <rect transform="scale(10 30)"/> <test/> </g> <g transform="scale(10)"> <!-- test --> </g> <g transform="scale(10)"> Text </g> </svg>"###,
    r###"<svg> <g transform="scale(10)"> <rect transform="scale(10 30)"/> <test/> </g> <g> <!-- test --> </g> <g>Text</g> </svg>"###,
    r###"<svg> <rect height="10" width="10" x="10" y="10" transform="translate(10 20)"/> </svg>"###,
    r###"<svg> <rect height="10" width="10" x="20" y="30"/> </svg>"###,
    r###"<svg> <rect height="10" rx="2" ry="2" width="10" x="10" y="10" transform="translate(10 20) scale(2)"/> </svg>"###,
    r###"<svg> <rect height="20" rx="4" ry="4" stroke-width="2" width="20" x="30" y="40"/> </svg>"###,
    r###"<svg> <rect height="10" width="10" transform="translate(10 20) scale(2)"/> </svg>"###,
    r###"<svg> <rect height="20" stroke-width="2" width="20" x="10" y="20"/> </svg>"###,
    r###"<svg stroke-width="2"> <rect height="10" width="10" transform="scale(2)"/> </svg>"###,
    r###"<svg stroke-width="2"> <rect height="20" stroke-width="4" width="20" x="0" y="0"/> </svg>"###,
    r###"<svg> <circle cx="10" cy="10" r="15" transform="translate(10 20) scale(2)"/> </svg>"###,
    r###"<svg> <circle cx="30" cy="40" r="30" stroke-width="2"/> </svg>"###,
    r###"<svg> <ellipse cx="10" cy="10" rx="15" ry="15" transform="translate(10 20) scale(2)"/> </svg>"###,
    r###"<svg> <ellipse cx="30" cy="40" rx="30" ry="30" stroke-width="2"/> </svg>"###,
    r###"<svg> <line x1="10" x2="10" y1="15" y2="15" transform="translate(10 20) scale(2)"/> </svg>"###,
    r###"<svg> <line stroke-width="2" x1="30" x2="30" y1="50" y2="50"/> </svg>"###,
    r###"<svg> <rect height="10" transform="scale(2)" width="10" x="10in" y="10"/> </svg>"###,
    r###"<svg> <g transform="scale(2 3)"> <rect height="10" width="10" x="10" y="10"/> </g> <mask id="m"/> <g mask="url(#m)" transform="scale(2)"> <rect height="10" width="10" x="10" y="10"/> </g> </svg>"###,
    r###"<svg> <line x1="100" y1="200" x2="300" y2="400"/> </svg>"###,
    r###"<svg> <path d="M 100 200 L 300 400"/> </svg>"###,
    r###"<svg> <line x2="30"/> </svg>"###,
    r###"<svg> <path d="M 0 0 L 30 0"/> </svg>"###,
    r###"<svg> <line x2="30pt"/> </svg>"###,
    r###"<svg> <rect x="10" y="20" width="30" height="40"/> </svg>"###,
    r###"<svg> <path d="M 10 20 H 40 V 60 H 10 Z"/> </svg>"###,
    r###"<svg> <rect width="30" height="40"/> </svg>"###,
    r###"<svg> <path d="M 0 0 H 30 V 40 H 0 Z"/> </svg>"###,
    r###"<svg> <rect width="30" height="30" rx="1"/> <rect width="30" height="30" ry="1"/> <rect width="30" height="0"/> <rect width="0" height="30"/> </svg>"###,
    r###"<svg> <rect height="30" rx="1" width="30"/> <rect height="30" ry="1" width="30"/> <rect height="0" width="30"/> <rect height="30" width="0"/> </svg>"###,
    r###"<svg> <polyline points="30 40 50 60 70 80"/> </svg>"###,
    r###"<svg> <path d="M 30 40 L 50 60 L 70 80"/> </svg>"###,
    r###"<svg> <polyline/> </svg>"###,
    r###"<svg> <polygon points="30 40 50 60 70 80"/> </svg>"###,
    r###"<svg> <path d="M 30 40 L 50 60 L 70 80 Z"/> </svg>"###,
    r###"<svg> <defs/> </svg>"###,
    r###"<svg/>"###,
    r###"<svg> <rect/> <!--comment--> <defs/> </svg>"###,
    r###"<svg> <rect/> <!--comment--> </svg>"###,
    r###"<svg> <defs> <rect/> </defs> </svg>"###,
    r###"<svg xmlns:xlink="http://www.w3.org/1999/xlink"/>"###,
    r###"<svg xmlns:xlink="http://www.w3.org/1999/xlink"> <rect id="rect1"/> <use xlink:href="#rect1"/> </svg>"###,
    r###"<svg xmlns:xlink="http://www.w3.org/1999/xlink"> <font-face-uri xlink:href="../resources/SVGFreeSans.svg#ascii"/> </svg>"###,
    r###"<svg> <rect id="rect1"/> <use xlink:href="#rect1"/> </svg>"###,
    r###"<svg> <rect/> <rect width="-1" height="-1"/> <rect width="30"/> <rect height="40"/> <rect width="-30"/> <rect height="-40"/> <rect width="0"/> <rect height="0"/> </svg>"###,
    r###"<svg> <rect height="0" width="0"/> <rect height="0" width="0"/> <rect height="0" width="30"/> <rect height="40" width="0"/> <rect height="0" width="0"/> <rect height="0" width="0"/> <rect height="0" width="0"/> <rect height="0" width="0"/> </svg>"###,
    r###"<svg> <rect height="50" width="40"/> <rect height="50" rx="-5" width="40"/> <rect height="50" ry="-5" width="40"/> <rect height="50" rx="-5" ry="-5" width="40"/> </svg>"###,
    r###"<svg> <rect height="50" width="40"/> <rect height="50" width="40"/> <rect height="50" width="40"/> <rect height="50" width="40"/> </svg>"###,
    r###"<svg> <polyline points="5 6 7"/> <polyline points="5"/> <polyline points=""/> <polyline/> </svg>"###,
    r###"<svg> <polyline points="5 6"/> <polyline/> <polyline/> <polyline/> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="-1"/> <stop offset="0.4"/> <stop offset="0.3"/> <stop offset="10"/> <stop offset="0.5"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="0"/> <stop offset="0.4"/> <stop offset="0.4"/> <stop offset="1"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <rect id="r2" fill="#ff0000"/> <rect id="r3" fill="#ff0000"/> </svg>"###,
    r###"<svg fill="#ff0000"> <rect id="r1"/> <rect id="r2"/> <rect id="r3"/> </svg>"###,
    r###"<svg> <g> <rect id="r1" fill="#ff0000"/> <rect id="r2" fill="#ff0000"/> <rect id="r3" fill="#ff0000"/> </g> </svg>"###,
    r###"<svg> <g fill="#ff0000"> <rect id="r1"/> <rect id="r2"/> <rect id="r3"/> </g> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <rect id="r2"/> <rect id="r3" fill="#ff0000"/> <rect id="r4" fill="#ff0000"/> <rect id="r5" fill="#ff0000"/> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <rect id="r2"/> <g fill="#ff0000"> <rect id="r3"/> <rect id="r4"/> <rect id="r5"/> </g> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000" stroke="#00ff00"/> <rect id="r2" stroke="#00ff00"/> <rect id="r3" fill="#ff0000" stroke="#00ff00"/> </svg>"###,
    r###"<svg stroke="#00ff00"> <rect id="r1" fill="#ff0000"/> <rect id="r2"/> <rect id="r3" fill="#ff0000"/> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <defs/> <rect id="r2" fill="#ff0000"/> <rect id="r3" fill="#ff0000"/> <rect id="r4" fill="#ff0000"/> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <defs/> <g fill="#ff0000"> <rect id="r2"/> <rect id="r3"/> <rect id="r4"/> </g> </svg>"###,
    r###"<svg> <g> <rect id="r1" fill="#ff0000"/> <defs/> <rect id="r2" fill="#ff0000"/> <rect id="r3" fill="#ff0000"/> <rect id="r4" fill="#ff0000"/> </g> </svg>"###,
    r###"<svg> <g> <rect id="r1" fill="#ff0000"/> <defs/> <g fill="#ff0000"> <rect id="r2"/> <rect id="r3"/> <rect id="r4"/> </g> </g> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <rect id="r1" fill="url(#lg1)"/> <rect id="r2" fill="url(#lg1)"/> <rect id="r3" fill="url(#lg1)"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <g fill="url(#lg1)"> <rect id="r1"/> <rect id="r2"/> <rect id="r3"/> </g> </svg>"###,
    r###"<svg> <rect id="r1" stroke="#00ff00"/> <rect id="r2" fill="#ff0000" stroke="#00ff00"/> <rect id="r3" fill="#ff0000" stroke="#00ff00"/> <rect id="r4" fill="#ff0000" stroke="#00ff00"/> <rect id="r5" fill="#ff0000" stroke="#00ff00"/> <rect id="r6" fill="#ff0000" stroke="#00ff00"/> <rect id="r7" fill="#ff0000" stroke="#00ff00"/> <rect id="r8" stroke="#00ff00"/> </svg>"###,
    r###"<svg stroke="#00ff00"> <rect id="r1"/> <g fill="#ff0000"> <rect id="r2"/> <rect id="r3"/> <rect id="r4"/> <rect id="r5"/> <rect id="r6"/> <rect id="r7"/> </g> <rect id="r8"/> </svg>"###,
    r###"<svg> // <rect id="r1" fill="#ff0000"/> // <rect id="r2" fill="#ff0000"/> // <rect id="r3" fill="#ff0000"/> // <rect id="r4"/> // <rect id="r5" fill="#ff0000"/> // <rect id="r6" fill="#ff0000"/> // <rect id="r7" fill="#ff0000"/> // </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000" stroke="#00ff00"/> <rect id="r2" fill="#ff0000" stroke="#00ff00"/> <rect id="r3" fill="#ff0000" stroke="#00ff00"/> </svg>"###,
    r###"<svg fill="#ff0000" stroke="#00ff00"> <rect id="r1"/> <rect id="r2"/> <rect id="r3"/> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <rect id="r2" fill="#ff0000" stroke="#00ff00"/> <rect id="r3" fill="#ff0000" stroke="#00ff00"/> <rect id="r4" stroke="#00ff00"/> <rect id="r5" fill="#ff0000" stroke="#00ff00"/> <rect id="r6" fill="#ff0000" stroke="#00ff00"/> <rect id="r7" fill="#ff0000" stroke="#00ff00"/> <rect id="r8" stroke="#00ff00"/> <rect id="r9" fill="#ff0000"/> <rect id="r10" fill="#ff0000"/> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <g stroke="#00ff00"> <rect id="r2" fill="#ff0000"/> <rect id="r3" fill="#ff0000"/> <rect id="r4"/> <rect id="r5" fill="#ff0000"/> <rect id="r6" fill="#ff0000"/> <rect id="r7" fill="#ff0000"/> <rect id="r8"/> </g> <rect id="r9" fill="#ff0000"/> <rect id="r10" fill="#ff0000"/> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <rect id="r2" fill="#ff0000"/> <rect id="r3" fill="#ff0000"/> <rect id="r4"/> <rect id="r5" fill="#ff0000"/> <rect id="r6" fill="#ff0000"/> <rect id="r7" fill="#ff0000"/> <rect id="r8" fill="#ff0000"/> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <rect id="r2" fill="#ff0000"/> <rect id="r3" fill="#ff0000"/> <rect id="r4"/> <g fill="#ff0000"> <rect id="r5"/> <rect id="r6"/> <rect id="r7"/> <rect id="r8"/> </g> </svg>"###,
    r###"<svg> <rect id="r1"/> <rect id="r2"/> <rect id="r3" fill="#ff0000" stroke="#ff0000"/> <rect id="r4" fill="#ff0000" stroke="#ff0000"/> <rect id="r5" fill="#ff0000" stroke="#ff0000"/> <rect id="r6"/> <rect id="r7"/> </svg>"###,
    r###"<svg> <rect id="r1"/> <rect id="r2"/> <g fill="#ff0000" stroke="#ff0000"> <rect id="r3"/> <rect id="r4"/> <rect id="r5"/> </g> <rect id="r6"/> <rect id="r7"/> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <use xlink:href="#r1"/> <rect id="r2" fill="#ff0000"/> <rect id="r3" fill="#ff0000"/> <rect id="r4" fill="#ff0000"/> </svg>"###,
    r###"<svg> <rect id="r1" fill="#ff0000"/> <use xlink:href="#r1"/> <g fill="#ff0000"> <rect id="r2"/> <rect id="r3"/> <rect id="r4"/> </g> </svg>"###,
    r###"<svg> <rect id="r1" transform="scale(10)"/> <rect id="r2" transform="scale(10)"/> <rect id="r3" transform="scale(10)"/> </svg>"###,
    r###"<svg transform="scale(10)"> <rect id="r1"/> <rect id="r2"/> <rect id="r3"/> </svg>"###,
    r###"<svg> <g transform="translate(10)"> <rect id="r1" transform="scale(10)"/> <rect id="r2" transform="scale(10)"/> <rect id="r3" transform="scale(10)"/> </g> </svg>"###,
    r###"<svg> <g transform="matrix(10 0 0 10 10 0)"> <rect id="r1"/> <rect id="r2"/> <rect id="r3"/> </g> </svg>"###,
    r###"<svg> <g> <rect fill="#ff0000"/> <rect fill="#ff0000"/> </g> </svg>"###,
    r###"<svg> <g fill="#ff0000"> <rect/> <rect/> </g> </svg>"###,
    r###"<svg> <altGlyphDef/> <clipPath/> <cursor/> <filter/> <linearGradient/> <marker/> <mask/> <pattern/> <radialGradient/> <symbol/> <rect/> </svg>"###,
    r###"<svg> <defs> <altGlyphDef/> <clipPath/> <cursor/> <filter/> <linearGradient/> <marker/> <mask/> <pattern/> <radialGradient/> <symbol/> </defs> <rect/> </svg>"###,
    r###"<svg> <defs id="a"> <altGlyphDef/> <defs id="b"> <clipPath/> </defs> <defs id="c"> <defs id="d"> <cursor/> <filter/> </defs> </defs> </defs> <defs> <radialGradient/> </defs> <defs/> </svg>"###,
    r###"<svg> <defs id="a"> <altGlyphDef/> <clipPath/> <cursor/> <filter/> <radialGradient/> </defs> </svg>"###,
    r###"<svg> <defs id="a"> <altGlyphDef/> <defs id="b"> <rect/> </defs> </defs> </svg>"###,
    r###"<svg> <defs id="a"> <altGlyphDef/> <rect/> </defs> </svg>"###,
    r###"<svg> <defs id="a"> <defs id="b"> <clipPath> <rect/> </clipPath> </defs> <line> <animate/> </line> </defs> </svg>"###,
    r###"<svg> <defs id="a"> <line> <animate/> </line> <clipPath> <rect/> </clipPath> </defs> </svg>"###,
    r###"<svg> <rect/> <defs/> </svg>"###,
    r###"<svg> <defs/> <rect/> </svg>"###,
    r###"<svg> <g fill="#ff0000"> <marker> <path/> </marker> </g> </svg>"###,
    r###"<svg> <defs> <marker> <path fill="#ff0000"/> </marker> </defs> <g fill="#ff0000"/> </svg>"###,
    r###"<svg> <g fill="#ff0000"> <marker> <path/> <path fill="#00ff00"/> </marker> </g> </svg>"###,
    r###"<svg> <defs> <marker> <path fill="#ff0000"/> <path fill="#00ff00"/> </marker> </defs> <g fill="#ff0000"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <g fill="url(#lg1)"> <marker> <path/> </marker> </g> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1"/> <marker> <path fill="url(#lg1)"/> </marker> </defs> <g fill="url(#lg1)"/> </svg>"###,
    r###"<svg> <g fill="none"> <mask fill="#ff0000"> <path/> </mask> </g> </svg>"###,
    r###"<svg> <defs> <mask fill="#ff0000"> <path fill="#ff0000"/> </mask> </defs> <g fill="none"/> </svg>"###,
    r###"<svg fill="black" stroke="red" stroke-width="1" opacity="1" fill-opacity="1" stroke-opacity="1"/>"###,
    r###"<svg fill="black" stroke="red"/>"###,
    r###"<svg> <linearGradient id="lg1"/> <linearGradient xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop id="s1" offset="0"/> <stop id="s2" offset="1"/> </linearGradient> <linearGradient xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient> <stop id="s1" offset="0"/> <stop id="s2" offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient id="lg1" x1="5" x2="5"> <stop offset="0"/> <stop offset="1"/> </linearGradient> <linearGradient x1="10" xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient x1="10" x2="5"> <stop offset="0"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient id="lg1" x1="5" x2="5"> <stop offset="0"/> <stop offset="1"/> </linearGradient> <linearGradient id="lg2" xlink:href="#lg1"/> <linearGradient x1="10" xlink:href="#lg2"/> </svg>"###,
    r###"<svg> <linearGradient x1="10" xlink:href="#lg2"/> <linearGradient id="lg2" xlink:href="#lg1"/> <linearGradient id="lg1" x1="5" x2="5"> <stop offset="0"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient id="lg1" x1="5" x2="5"/> <radialGradient xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <radialGradient/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop id="s1" offset="0"/> <stop id="s2" offset="1"/> </linearGradient> <linearGradient id="lg2" xlink:href="#lg1"> <stop id="s3" offset="0"/> <stop id="s4" offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient id="lg2"> <stop id="s3" offset="0"/> <stop id="s4" offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <path d=""/> </svg>"###,
    r###"<svg> <path d="M 10 20"/> </svg>"###,
    r###"<svg> <path d="M"/> <path d="M 10"/> </svg>"###,
    r###"<svg> <path d=""/> <path d=""/> </svg>"###,
    r###"<svg> <path id="valid" d="M 10 20 L 30 40" transform="translate(10 20)"/> <path id="valid2" d="M 10 20 L 30 40" transform="scale(2)"/> <path id="ignored" d="M 10 20 L 30 40" transform="rotate(30)"/> </svg>"###,
    r###"<svg> <path id="valid" d="m 20 40 l 20 20"/> <path id="valid2" d="m 20 40 l 40 40" stroke-width="2"/> <path id="ignored" d="m 10 20 l 20 20" transform="rotate(30)"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <g fill="url(#lg1)"> <path id="valid" d="M 10 20 L 30 40" transform="translate(10 20)"/> </g> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <g fill="url(#lg1)"> <path id="valid" d="m 10 20 l 20 20" transform="translate(10 20)"/> </g> </svg>"###,
    r###"<svg> <marker id="m"/> <path d="M 10 20 L 30 40" marker="url(#m)"/> <path d="M 10 20" marker="url(#m)"/> <path d="M 10 20"/> </svg>"###,
    r###"<svg> <marker id="m"/> <path d="m 10 20 l 20 20" marker="url(#m)"/> <path d="m 10 20" marker="url(#m)"/> <path d=""/> </svg>"###,
    r###"<svg><script/></svg>"###,
    r###"<svg onload=""/>"###,
    r###"<svg><set/></svg>"###,
    r###"<svg><switch requiredFeatures="text"/></svg>"###,
    r###"<svg><switch systemLanguage="en"/></svg>"###,
    r###"<svg><switch requiredFeatures=""/></svg>"###,
    r###"<svg><switch systemLanguage=""/></svg>"###,
    r###"<svg> <linearGradient id="lg1" x1="50"> <stop offset="0"/> <stop offset="1"/> </linearGradient> <linearGradient id="lg2" x1="100"> <stop offset="0"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient id="lg3"> <stop offset="0"/> <stop offset="1"/> </linearGradient> <linearGradient id="lg1" x1="50" xlink:href="#lg3"/> <linearGradient id="lg2" x1="100" xlink:href="#lg3"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1" x1="50"> <stop offset="0"/> <stop offset="1"/> </linearGradient> <linearGradient id="lg3" x1="50"> <stop offset="0.5"/> <stop offset="1"/> </linearGradient> <linearGradient id="lg2" x1="100"> <stop offset="0"/> <stop offset="1"/> </linearGradient> <linearGradient id="lg4" x1="100"> <stop offset="0.5"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient id="lg5"> <stop offset="0"/> <stop offset="1"/> </linearGradient> <linearGradient id="lg1" x1="50" xlink:href="#lg5"/> <linearGradient id="lg6"> <stop offset="0.5"/> <stop offset="1"/> </linearGradient> <linearGradient id="lg3" x1="50" xlink:href="#lg6"/> <linearGradient id="lg2" x1="100" xlink:href="#lg5"/> <linearGradient id="lg4" x1="100" xlink:href="#lg6"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1" gradientUnits="objectBoundingBox" spreadMethod="pad" x1="0%" x2="100%" y1="0%" y2="0%"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1" cx="50%" cy="50%" fx="50%" fy="50%" gradientUnits="objectBoundingBox" r="50%" spreadMethod="pad"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1" cx="10" cy="20"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1" cx="10" cy="20" fx="10" fy="20" gradientUnits="objectBoundingBox" r="50%" spreadMethod="pad"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1" cx="10" cy="20" fx="30" fy="40" gradientTransform="matrix(1 0 0 1 10 20)" gradientUnits="userSpaceOnUse" r="5" spreadMethod="repeat"/> <radialGradient id="rg2" xlink:href="#rg1"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1" cx="10" cy="20" fx="30" fy="40" gradientTransform="translate(10 20)" gradientUnits="userSpaceOnUse" r="5" spreadMethod="repeat"/> <radialGradient id="rg2" cx="10" cy="20" fx="30" fy="40" gradientTransform="translate(10 20)" gradientUnits="userSpaceOnUse" r="5" spreadMethod="repeat" xlink:href="#rg1"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1" cx="10" cy="20" fx="30" fy="40" gradientTransform="matrix(1 0 0 1 10 20)" gradientUnits="userSpaceOnUse" r="5" spreadMethod="repeat"/> <radialGradient id="rg2" xlink:href="#rg1"/> <radialGradient id="rg3" xlink:href="#rg2"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1" cx="10" cy="20" fx="30" fy="40" gradientTransform="translate(10 20)" gradientUnits="userSpaceOnUse" r="5" spreadMethod="repeat"/> <radialGradient id="rg2" cx="10" cy="20" fx="30" fy="40" gradientTransform="translate(10 20)" gradientUnits="userSpaceOnUse" r="5" spreadMethod="repeat" xlink:href="#rg1"/> <radialGradient id="rg3" cx="10" cy="20" fx="30" fy="40" gradientTransform="translate(10 20)" gradientUnits="userSpaceOnUse" r="5" spreadMethod="repeat" xlink:href="#rg2"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1" cx="10" cy="20" r="5"/> <radialGradient id="rg2" cy="30" xlink:href="#rg1"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1" cx="10" cy="20" fx="10" fy="20" gradientUnits="objectBoundingBox" r="5" spreadMethod="pad"/> <radialGradient id="rg2" cx="10" cy="30" fx="10" fy="30" gradientUnits="objectBoundingBox" r="5" spreadMethod="pad" xlink:href="#rg1"/> </svg>"###,
    r###"<svg> <radialGradient id="rg2" cy="30" xlink:href="#rg1"/> <radialGradient id="rg3" cx="30" xlink:href="#rg2"/> <radialGradient id="rg4" cx="40" xlink:href="#rg2"/> <radialGradient id="rg1" cx="10" cy="20" r="5"/> </svg>"###,
    r###"<svg> <radialGradient id="rg2" cx="10" cy="30" fx="10" fy="30" gradientUnits="objectBoundingBox" r="5" spreadMethod="pad" xlink:href="#rg1"/> <radialGradient id="rg3" cx="30" cy="30" fx="30" fy="30" gradientUnits="objectBoundingBox" r="5" spreadMethod="pad" xlink:href="#rg2"/> <radialGradient id="rg4" cx="40" cy="30" fx="40" fy="30" gradientUnits="objectBoundingBox" r="5" spreadMethod="pad" xlink:href="#rg2"/> <radialGradient id="rg1" cx="10" cy="20" fx="10" fy="20" gradientUnits="objectBoundingBox" r="5" spreadMethod="pad"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1" gradientUnits="userSpaceOnUse" spreadMethod="repeat" x="5" y="5"/> <radialGradient id="rg2" cy="30" r="5" xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1" gradientUnits="userSpaceOnUse" spreadMethod="repeat" x="5" y="5"/> <radialGradient id="rg2" cx="50%" cy="30" fx="50%" fy="30" gradientUnits="userSpaceOnUse" r="5" spreadMethod="repeat" xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="50%"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="0.5" stop-color="#000000" stop-opacity="1"/> </linearGradient> </svg>"###,
    r###"<svg fill="#ff0000"> <rect fill="inherit"/> </svg>"###,
    r###"<svg fill="#ff0000"> <rect fill="#ff0000"/> </svg>"###,
    r###"<svg fill="#ff0000"> <g> <rect fill="inherit"/> </g> </svg>"###,
    r###"<svg fill="#ff0000"> <g> <rect fill="#ff0000"/> </g> </svg>"###,
    r###"<svg fill="#ff0000" stroke="#00ff00"> <rect fill="inherit" stroke="inherit"/> </svg>"###,
    r###"<svg fill="#ff0000" stroke="#00ff00"> <rect fill="#ff0000" stroke="#00ff00"/> </svg>"###,
    r###"<svg color="#ff0000"> <rect fill="currentColor"/> </svg>"###,
    r###"<svg color="#ff0000"> <rect fill="#ff0000"/> </svg>"###,
    r###"<svg> <rect color="#ff0000" fill="currentColor"/> </svg>"###,
    r###"<svg> <rect color="#ff0000" fill="#ff0000"/> </svg>"###,
    r###"<svg color="#ff0000"> <rect fill="currentColor" stroke="currentColor"/> </svg>"###,
    r###"<svg color="#ff0000"> <rect fill="#ff0000" stroke="#ff0000"/> </svg>"###,
    r###"<svg> <rect fill="inherit"/> </svg>"###,
    r###"<svg> <rect fill="currentColor"/> <rect fill="inherit"/> </svg>"###,
    r###"<svg font-family="inherit"/>"###,
    r###"<svg> <defs> <rect id="r1" width="10"/> </defs> <use xlink:href="#r1"/> </svg>"###,
    r###"<svg> <defs/> <rect id="r1" width="10"/> </svg>"###,
    r###"<svg> <defs> <rect id="r1" width="10"/> </defs> <use xlink:href="#r1" fill="#ff0000"/> </svg>"###,
    r###"<svg> <defs/> <rect id="r1" fill="#ff0000" width="10"/> </svg>"###,
    r###"<svg> <defs> <rect id="r1" width="10"/> </defs> <use x="10" xlink:href="#r1"/> </svg>"###,
    r###"<svg> <defs/> <rect id="r1" transform="translate(10)" width="10"/> </svg>"###,
    r###"<svg> <defs> <rect id="r1" width="10"/> </defs> <use x="10" xlink:href="#r1" transform="translate(10 10)"/> </svg>"###,
    r###"<svg> <defs/> <rect id="r1" transform="translate(20 10)" width="10"/> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1"/> <rect id="r1" fill="url(#lg1)"/> </defs> <use xlink:href="#r1"/> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1"/> </defs> <rect id="r1" fill="url(#lg1)"/> </svg>"###,
    r###"<svg> <defs> <path id="path1" d="M 10 20 L 10 20"/> <use id="use2" xlink:href="#path1"/> </defs> </svg>"###,
    r###"<svg> <defs> <path id="path1" d="M 10 20 L 10 20"/> </defs> </svg>"###,
    r###"<svg> <rect id="r1"/> <use xlink:href="#r1"/> </svg>"###,
    r###"<svg> <defs> <symbol id="r1"> <rect/> </symbol> </defs> <use xlink:href="#r1"/> </svg>"###,
    r###"<svg> <use id="use1" xlink:href="#use2"/> <defs> <path id="path1" d="M 10 20 L 10 20"/> <use id="use2" xlink:href="#path1"/> </defs> </svg>"###,
    r###"<svg> <rect fill="#000000"/> </svg>"###,
    r###"<svg> <rect/> </svg>"###,
    r###"<svg fill="#ff0000"> <rect fill="#000000"/> </svg>"###,
    r###"<svg width="100%" height="100%"/>"###,
    r###"<svg> <text x="0"/> </svg>"###,
    r###"<svg> <text/> </svg>"###,
    r###"<svg> <mask x="-10%" y="-10%" width="120%" height="120%"/> </svg>"###,
    r###"<svg> <mask/> </svg>"###,
    r###"<svg> <filter x="-10%" y="-10%" width="120%" height="120%"/> </svg>"###,
    r###"<svg> <filter/> </svg>"###,
    r###"<svg overflow="visible"> <rect overflow="hidden"/> <svg overflow="visible"/> </svg>"###,
    r###"<svg> <rect/> <svg overflow="visible"/> </svg>"###,
    r###"<svg> <defs> <filter id="f1"> <feGaussianBlur stdDeviation="2"/> </filter> <filter id="f2"> <feGaussianBlur stdDeviation="2"/> </filter> </defs> <rect filter="url(#f2)"/> </svg>"###,
    r###"<svg> <defs> <filter id="f1"> <feGaussianBlur stdDeviation="2"/> </filter> </defs> <rect filter="url(#f1)"/> </svg>"###,
    r###"<svg> <defs> <filter id="f1" x="5" y="5" width="10" height="10"> <feGaussianBlur stdDeviation="2"/> </filter> <filter id="f2" x="5" y="5" width="10" height="10"> <feGaussianBlur stdDeviation="2"/> </filter> </defs> <rect filter="url(#f2)"/> </svg>"###,
    r###"<svg> <defs> <filter id="f1" height="10" width="10" x="5" y="5"> <feGaussianBlur stdDeviation="2"/> </filter> </defs> <rect filter="url(#f1)"/> </svg>"###,
    r###"<svg> <filter id="f1" height="10" width="10" x="50" y="5"> <feGaussianBlur stdDeviation="2"/> </filter> <filter id="f2" height="10" width="10" x="5" y="5"> <feGaussianBlur stdDeviation="2"/> </filter> </svg>"###,
    r###"<svg> <filter id="f1"> <feGaussianBlur stdDeviation="1"/> </filter> <filter id="f2"> <feGaussianBlur stdDeviation="2"/> </filter> </svg>"###,
    r###"<svg> <filter id="f1" xlink:href="#f2"> <feGaussianBlur stdDeviation="1"/> </filter> <filter id="f2"> <feGaussianBlur stdDeviation="1"/> </filter> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#0000ff"/> </linearGradient> <linearGradient id="lg2"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#0000ff"/> </linearGradient> </defs> <rect fill="url(#lg2)"/> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#0000ff"/> </linearGradient> </defs> <rect fill="url(#lg1)"/> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#0000ff"/> </linearGradient> <linearGradient id="lg2"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#0000ff"/> </linearGradient> <linearGradient id="lg3"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#0000ff"/> </linearGradient> </defs> <rect fill="url(#lg2)"/> <rect fill="url(#lg3)"/> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#0000ff"/> </linearGradient> </defs> <rect fill="url(#lg1)"/> <rect fill="url(#lg1)"/> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1" x1="0%"/> <linearGradient id="lg2" x2="100%"/> </defs> <rect fill="url(#lg2)"/> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1" x1="0%"/> </defs> <rect fill="url(#lg1)"/> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1"/> <linearGradient id="lg2"/> </defs> <rect fill="url(#lg2)"/> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1"/> </defs> <rect fill="url(#lg1)"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop/> </linearGradient> <linearGradient id="lg2" xlink:href="#lg1"/> <linearGradient id="lg3" xlink:href="#lg1"/> <rect fill="url(#lg2)"/> <rect fill="url(#lg3)"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop/> </linearGradient> <linearGradient id="lg2" xlink:href="#lg1"/> <rect fill="url(#lg2)"/> <rect fill="url(#lg2)"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1" xlink:href="#lg2"/> <linearGradient id="lg2"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop offset="0" stop-color="#ff0000" stop-opacity="1"/> <stop offset="1" stop-color="#000000" stop-opacity="1"/> </linearGradient> <linearGradient id="lg2"> <stop offset="0" stop-color="#ff0000" stop-opacity="1"/> <stop offset="1" stop-color="#000000" stop-opacity="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#000000"/> </linearGradient> <linearGradient id="lg2"> <stop offset="0" stop-color="#ff0000" stop-opacity="1"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop offset="0"/> <stop offset="1"/> </linearGradient> <linearGradient id="lg2"> <stop offset="0"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop offset="0"/> <stop offset="1"/> </linearGradient> <linearGradient id="lg2"> <stop offset="0"/> <stop offset="0.5"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop offset="0"/> </linearGradient> <linearGradient id="lg2"> <stop offset="0"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <defs> <radialGradient id="rg1" cx="0" cy="0" fx="5" fy="5" r="10"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#0000ff"/> </radialGradient> <radialGradient id="rg2" cx="0" cy="0" fx="5" fy="5" r="10"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#0000ff"/> </radialGradient> </defs> <rect fill="url(#rg2)"/> </svg>"###,
    r###"<svg> <defs> <radialGradient id="rg1" cx="0" cy="0" fx="5" fy="5" r="10"> <stop offset="0" stop-color="#ff0000"/> <stop offset="1" stop-color="#0000ff"/> </radialGradient> </defs> <rect fill="url(#rg1)"/> </svg>"###,
    r###"<svg> <defs> <radialGradient id="rg1" cx="0" cy="0" fx="5" fy="5" r="10"/> <radialGradient id="rg2" cx="0" cy="0" fx="5" fy="5" r="10"/> </defs> <rect fill="url(#rg2)"/> </svg>"###,
    r###"<svg> <defs> <radialGradient id="rg1" cx="0" cy="0" fx="5" fy="5" r="10"/> </defs> <rect fill="url(#rg1)"/> </svg>"###,
    r###"<svg> <defs> <radialGradient id="rg1" cx="5" cy="5" fx="5" r="10"/> <radialGradient id="rg2" cx="5" cy="5" fy="5" r="10"/> </defs> <rect fill="url(#rg2)"/> </svg>"###,
    r###"<svg> <defs> <radialGradient id="rg1" cx="5" cy="5" fx="5" r="10"/> </defs> <rect fill="url(#rg1)"/> </svg>"###,
    r###"<svg> <defs> <radialGradient id="rg1" cx="5" cy="5" fx="5" gradientTransform="matrix(1 0 0 1 10 20)" r="10"/> <radialGradient id="rg2" cx="5" cy="5" fy="5" gradientTransform="matrix(1 0 0 1 10 20)" r="10"/> <radialGradient id="rg3" cx="5" cy="5" fy="5" r="10"/> </defs> <rect fill="url(#rg2)"/> </svg>"###,
    r###"<svg> <defs> <radialGradient id="rg1" cx="5" cy="5" fx="5" gradientTransform="translate(10 20)" r="10"/> <radialGradient id="rg3" cx="5" cy="5" fy="5" r="10"/> </defs> <rect fill="url(#rg1)"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1"/> <radialGradient id="rg2" xlink:href="#rg1"/> </svg>"###,
    r###"<svg> // <radialGradient id="rg2" xlink:href="#rg1"/> // <radialGradient id="rg1"/> // </svg>"###,
    r###"<svg> <radialGradient id="rg1"/> <radialGradient id="rg2" xlink:href="#rg1"/> <radialGradient id="rg3" xlink:href="#rg2"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <radialGradient id="rg1" xlink:href="#lg1"/> <radialGradient id="rg2" xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <radialGradient id="rg1" xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <title/> </svg>"###,
    r###"<svg> <title/> <title/> <rect/> <title/> </svg>"###,
    r###"<svg> <title> <title/> <rect/> </title> <rect/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <linearGradient xlink:href="#lg1" gradientUnits="userSpaceOnUse"/> <radialGradient xlink:href="#lg1" gradientUnits="userSpaceOnUse"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1" gradientUnits="userSpaceOnUse"/> <linearGradient xlink:href="#lg1"/> <radialGradient xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1-1"/> <linearGradient id="lg2-1" gradientUnits="userSpaceOnUse" xlink:href="#lg1-1"/> <linearGradient id="lg2-2" gradientUnits="userSpaceOnUse" xlink:href="#lg1-1"/> <radialGradient id="lg3-1" gradientUnits="userSpaceOnUse" xlink:href="#lg2-1"/> <radialGradient id="lg3-2" gradientUnits="userSpaceOnUse" xlink:href="#lg2-1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1-1" gradientUnits="userSpaceOnUse"/> <linearGradient id="lg2-1" xlink:href="#lg1-1"/> <linearGradient id="lg2-2" xlink:href="#lg1-1"/> <radialGradient id="lg3-1" xlink:href="#lg2-1"/> <radialGradient id="lg3-2" xlink:href="#lg2-1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <linearGradient gradientUnits="userSpaceOnUse" xlink:href="#lg1"/> <linearGradient gradientUnits="userSpaceOnUse" xlink:href="#lg1"/> <linearGradient gradientUnits="objectBoundingBox" xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1" gradientUnits="userSpaceOnUse"/> <linearGradient xlink:href="#lg1"/> <linearGradient xlink:href="#lg1"/> <linearGradient gradientUnits="objectBoundingBox" xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1" gradientUnits="objectBoundingBox"/> <linearGradient gradientUnits="userSpaceOnUse" xlink:href="#lg1"/> <linearGradient gradientUnits="objectBoundingBox" xlink:href="#lg1"/> <linearGradient gradientUnits="objectBoundingBox" xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <linearGradient gradientUnits="userSpaceOnUse" xlink:href="#lg1"/> <linearGradient xlink:href="#lg1"/> <linearGradient xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1" gradientUnits="userSpaceOnUse"/> <linearGradient gradientUnits="userSpaceOnUse" xlink:href="#lg1"/> <linearGradient gradientUnits="objectBoundingBox" xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <linearGradient gradientUnits="userSpaceOnUse" xlink:href="#lg1"/> <linearGradient xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <linearGradient gradientUnits="userSpaceOnUse" xlink:href="#lg1"/> <linearGradient gradientUnits="userSpaceOnUse" xlink:href="#lg1"/> <linearGradient xlink:href="#lg1"/> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="0"/> <stop offset="0"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="0"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="0"/> <stop offset="1"/> <stop offset="0.2"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="0"/> <stop offset="0.5" stop-color="#ff0000"/> <stop offset="0.5" stop-color="#ff0000"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="0"/> <stop offset="0.5" stop-color="#ff0000"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="0"/> <stop offset="0.5" stop-color="#ff0000"/> <stop offset="0.5" stop-color="#00ff00"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="0"/> <stop offset="0.5" stop-opacity="0.6"/> <stop offset="0.5" stop-opacity="0.5"/> <stop offset="1"/> </linearGradient> </svg>"###,
    r###"<svg> <linearGradient> <stop offset="0"/> <stop offset="1" stop-color="#ff0000"/> <stop offset="1" stop-color="#00ff00"/> </linearGradient> </svg>"###,
    r###"<svg> <defs> <clipPath> <g/> <rect height="5" width="5"/> </clipPath> </defs> </svg>"###,
    r###"<svg> <defs> <clipPath> <rect height="5" width="5"/> </clipPath> </defs> </svg>"###,
    r###"<svg> <defs> <clipPath> <use/> <use xlink:href="#g1"/> <use xlink:href="#rect1"/> </clipPath> </defs> <rect id="rect1" height="5" width="5"/> <g id="g1"/> </svg>"###,
    r###"<svg> <defs> <clipPath> <use xlink:href="#rect1"/> </clipPath> </defs> <rect id="rect1" height="5" width="5"/> <g id="g1"/> </svg>"###,
    r###"<svg> <clipPath id="cp1"/> <rect clip-path="url(#cp1)" height="5" width="5"/> <rect clip-path="url(#cp1)" height="5" width="5"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <clipPath id="cp1"/> <rect clip-path="url(#cp1)" fill="url(#lg1)" height="5" width="5"/> </svg>"###,
    r###"<svg> <clipPath> <rect display="none" height="5" width="5"/> </clipPath> </svg>"###,
    r###"<svg> <path/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <path d="" fill="url(#lg1)"/> </svg>"###,
    r###"<svg> <path display="none"/> </svg>"###,
    r###"<svg> <g display="none"> <rect height="5" width="5"/> </g> </svg>"###,
    r###"<svg> <g display="none"> <rect id="r1" height="5" width="5"/> </g> <use xlink:href="#r1"/> </svg>"###,
    r###"<svg> <filter id="f1"/> <rect filter="url(#f1)" height="5" width="5"/> </svg>"###,
    r###"<svg> <use/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"/> <rect fill="url(#lg1)" height="5" width="5"/> <rect stroke="url(#lg1)" height="5" width="5"/> </svg>"###,
    r###"<svg> <rect fill="none" height="5" width="5"/> <rect height="5" stroke="none" width="5"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop offset="0.5" stop-color="#ff0000" stop-opacity="0.5"/> </linearGradient> <rect fill="url(#lg1)" stroke="url(#lg1)" height="5" width="5"/> </svg>"###,
    r###"<svg> <rect fill="#ff0000" fill-opacity="0.5" height="5" stroke="#ff0000" stroke-opacity="0.5" width="5"/> </svg>"###,
    r###"<svg> <linearGradient id="lg1"> <stop offset="0.5" stop-color="#ff0000" stop-opacity="0.5"/> </linearGradient> <linearGradient id="lg2" xlink:href="#lg1"/> <rect fill="url(#lg1)" stroke="url(#lg1)" height="5" width="5"/> </svg>"###,
    r###"<svg> <rect width="0" height="0"/> <rect width="10" height="0"/> <rect width="0" height="10"/> </svg>"###,
    r###"<svg> <filter id="filter1"> <feColorMatrix type="matrix" values="1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0"/> </filter> <rect filter="url(#filter1)" height="10" width="10"/> </svg>"###,
    r###"<svg> <rect height="10" width="10"/> </svg>"###,
    r###"<svg> <clipPath> <rect width="10" fill="red"/> </clipPath> </svg>"###,
    r###"<svg> <clipPath> <rect width="10"/> </clipPath> </svg>"###,
    r###"<svg> <clipPath> <text fill="red" font-size="10"/> </clipPath> </svg>"###,
    r###"<svg> <clipPath> <text font-size="10"/> </clipPath> </svg>"###,
    r###"<svg> <rect dx="10" fill="#ff0000" r="5"/> </svg>"###,
    r###"<svg> <rect fill="#ff0000"/> </svg>"###,
    r###"<svg enable-background="new"> <g enable-background="new"> <rect enable-background="new"/> </g> </svg>"###,
    r###"<svg enable-background="new"> <g enable-background="new"> <rect/> </g> </svg>"###,
    r###"<svg> <rect fill="none" fill-rule="evenodd" fill-opacity="0.5"/> </svg>"###,
    r###"<svg> <rect fill="none"/> </svg>"###,
    r###"<svg> <rect fill="red" fill-rule="evenodd" fill-opacity="0"/> </svg>"###,
    r###"<svg> <g fill="#ff0000" fill-rule="evenodd"> <rect fill="none"/> </g> </svg>"###,
    r###"<svg> <rect stroke="none" stroke-width="5" stroke-linecap="square"/> <rect stroke="red" stroke-width="0" stroke-linecap="square"/> <rect stroke="red" stroke-opacity="0" stroke-linecap="square"/> </svg>"###,
    r###"<svg> <rect/> <rect/> <rect/> </svg>"###,
    r###"<svg> <g stroke="#ff0000"> <rect stroke="none"/> </g> </svg>"###,
    r###"<svg overflow="scroll"> <rect overflow="visible"/> </svg>"###,
    r###"<svg overflow="scroll"> <rect/> </svg>"###,
    r###"<svg font="Verdana"> <rect text-anchor="middle"/> </svg>"###,
    r###"<svg> <font-face font-family="Verdana"/> </svg>"###,
    r###"<svg> <font-face/> </svg>"###,
    r###"<svg> <g font-family="Verdana"> <text text-anchor="middle">text</text> </g> <g font-family="Verdana"> <rect/> </g> </svg>"###,
    r###"<svg> <g font-family="Verdana"> <text text-anchor="middle">text</text> </g> <g> <rect/> </g> </svg>"###,
    r###"<svg> <g font-size="10"> <rect width="10ex"/> </g> <g font-size="10"> <rect width="10px"/> </g> </svg>"###,
    r###"<svg> <g font-size="10"> <rect width="10ex"/> </g> <g> <rect width="10px"/> </g> </svg>"###,
    r###"<svg font="Verdana"> <g word-spacing="normal"> <text text-anchor="middle">text</text> </g> </svg>"###,
    r###"<svg> <font-face font-family="Verdana"/> <text>text</text> </svg>"###,
    r###"<svg> <defs> <text id="hello">Hello</text> </defs> <text font-family="Verdana"> <tref xlink:href="#hello"/> </text> </svg>"###,
    r###"<svg> <defs> <text id="hello">Hello</text> </defs> <text font-family="Verdana"><tref xlink:href="#hello"/></text> </svg>"###,
    r###"<svg> <g font-size="50"> <rect width="50ex"/> </g> <g font-size="50"> <rect width="50em"/> </g> </svg>"###,
    r###"<svg> <defs> <text id="text">Text</text> </defs> <use font-size="50" xlink:href="#text"/> </svg>"###,
    r###"<svg> <g font-size="10"> <rect width="10"/> <g> <rect width="10ex"/> </g> <rect width="10"/> </g> </svg>"###,
    r###"<svg>
    <text xml:space="preserve"/>
    <text xml:space="preserve"></text>
    <text xml:space="preserve">Text</text>
    <text xml:space="preserve">Text Text</text>
</svg>"###,
    r###"<svg> <text/> <text/> <text>Text</text> <text>Text Text</text> </svg>"###,
    r###"<svg>
    <text xml:space="preserve"> Text</text>
    <text xml:space="preserve">Text </text>
    <text xml:space="preserve"> Text </text>
    <text xml:space="preserve">Text  Text</text>
</svg>"###,
    r###"<svg> <radialGradient id="lg1"/> <radialGradient id="lg2"/> <rect id="unused" fill="url(#lg1)"/> </svg>"###,
    r###"<svg> <radialGradient id="lg1"/> <radialGradient/> <rect fill="url(#lg1)"/> </svg>"###,
    r###"<svg x="5" y="5"> <svg x="5" y="5"/> </svg>"###,
    r###"<svg> <svg x="5" y="5"/> </svg>"###,
    r###"<svg> <rect rx="5" ry="5"/> <rect rx="5" ry="5em"/> </svg>"###,
    r###"<svg> <rect rx="5"/> <rect rx="5" ry="5em"/> </svg>"###,
    r###"<svg> <radialGradient cx="5" cy="5" fx="5" fy="5"/> </svg>"###,
    r###"<svg> <radialGradient cx="5" cy="5"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1" fx="5"/> <radialGradient xlink:href="#rg1"/> </svg>"###,
    r###"<svg> <radialGradient id="rg1"/> <radialGradient fx="5" xlink:href="#rg1"/> </svg>"###,
    r###"<svg> <defs> <rect id="rect1"/> <rect/> <linearGradient/> </defs> <use xlink:href="#rect1"/> </svg>"###,
    r###"<svg> <defs> <rect id="rect1"/> </defs> <use xlink:href="#rect1"/> </svg>"###,
    r###"<svg> <defs> <linearGradient id="linearGradient1"> <stop/> <stop/> </linearGradient> <radialGradient xlink:href="#linearGradient1" id="radialGradient1"/> </defs> </svg>"###,
    r###"<svg> <defs> <clipPath id="clipPath1"> <path id="path1"/> </clipPath> </defs> <use xlink:href="#path1"/> </svg>"###,
    r###"<svg> <defs> <path id="path1"/> </defs> <use xlink:href="#path1"/> </svg>"###,
    r###"<svg> <defs> <clipPath id="clipPath1"> <path id="path1"/> </clipPath> </defs> <use clip-path="url(#clipPath1)" xlink:href="#path1"/> </svg>"###,
    r###"<svg> <defs> <clipPath id="clipPath1"> <rect/> <g> <rect/> </g> <path/> </clipPath> </defs> <use clip-path="url(#clipPath1)"/> </svg>"###,
    r###"<svg> <defs> <clipPath> <g> <rect id="rect1"/> </g> </clipPath> </defs> <use xlink:href="#rect1"/> </svg>"###,
    r###"<svg> <defs> <foreignObject> <svg> <text id="hello"> Hello </text> </svg> </foreignObject> </defs> <text> <tref xlink:href="#hello"/> </text> </svg>"###,
    r###"<svg> <defs> <text id="hello">Hello</text> </defs> <text><tref xlink:href="#hello"/></text> </svg>"###,
    r###"<svg> <defs> <g> <rect id="rect1"/> </g> </defs> <use xlink:href="#rect1"/> </svg>"###,
    r###"<svg> <defs> <font-face/> <font/> </defs> </svg>"###,
    r###"<svg> <defs> <font-face font-family="SVGFreeSansASCII" unicode-range="U+0-7F"> <font-face-src> <font-face-uri xlink:href="../resources/SVGFreeSans.svg#ascii"/> </font-face-src> </font-face> </defs> </svg>"###,
    r###"<svg> <defs> <linearGradient/> </defs> </svg>"###,
    r###"<svg> <defs> <linearGradient/> </defs> <defs> <linearGradient/> </defs> </svg>"###,
    r###"<svg> <linearGradient/> <linearGradient/> </svg>"###,
    r###"<svg> <defs> <linearGradient/> <radialGradient/> </defs> </svg>"###,
    r###"<svg> <linearGradient/> <radialGradient/> </svg>"###,
    r###"<svg> <defs> <linearGradient/> <rect/> </defs> </svg>"###,
    r###"<svg> <g/> </svg>"###,
    r###"<svg> <g> <g/> </g> </svg>"###,
    r###"<svg> <g> <rect/> </g> </svg>"###,
    r###"<svg> <g> <g> <g> <g> <rect/> </g> </g> </g> </g> </svg>"###,
    r###"<svg> <g> <rect id="1"/> <rect id="2"/> </g> </svg>"###,
    r###"<svg> <rect id="1"/> <rect id="2"/> </svg>"###,
    r###"<svg> <g> <rect/> <g> <rect/> </g> </g> </svg>"###,
    r###"<svg> <rect/> <rect/> </svg>"###,
    r###"<svg> <switch> <foreignObject/> <g> <rect/> </g> </switch> </svg>"###,
    r###"<svg> <switch> <foreignObject/> <rect/> </switch> </svg>"###,
    r###"<svg> <switch> <foreignObject/> <g> <g> <g> <rect/> </g> <g/> </g> </g> </switch> </svg>"###,
    r###"<svg> // <g id="g1"/> // <use xlink:href="#g1"/> // </svg>"###,
    r###"<svg> <defs> <filter id="f1"/> </defs> <g filter="url(#f1)"/> </svg>"###,
    r###"<svg> <g id="g1"> <rect/> </g> <use xlink:href="#g1"/> </svg>"###,
    r###"<svg> <defs> <clipPath id="clip1"/> </defs> <g clip-path="url(#clip1)"> <rect/> </g> </svg>"###,
    r###"<svg> <defs> <clipPath id="cp1"> <g transform="translate(5)"> <rect/> </g> </clipPath> </defs> <rect clip-path="url(#cp1)"/> </svg>"###,
    r###"<svg> <defs> <clipPath id="cp1"> <g> <rect transform="translate(5)"/> </g> </clipPath> </defs> <rect clip-path="url(#cp1)"/> </svg>"###,
    r###"<svg> <switch> <foreignObject/> <g> <rect/> <rect/> </g> </switch> </svg>"###,
    r###"<svg> <g transform="translate(10 20)"> <rect transform="translate(10 20)"/> <use transform="translate(10 20)"/> </g> </svg>"###,
    r###"<svg> <g opacity="0.5"> <rect/> <rect/> </g> </svg>"###,
    r###"<svg> <g fill="#ff0000"> <rect/> </g> </svg>"###,
    r###"<svg> <defs> <linearGradient id="lg1"/> </defs> <g fill="url(#lg1)"> <rect/> </g> </svg>"###,
    r###"<svg> <g display="none"> <rect display="inline"/> </g> </svg>"###,
    r###"<svg> <rect display="none"/> </svg>"###,
    r###"<svg> <g opacity="0.5"> <rect/> </g> <g opacity="0.5"> <rect opacity="0.5"/> </g> </svg>"###,
    r###"<svg> <rect opacity="0.5"/> <rect opacity="0.25"/> </svg>"###,
    r###"<svg> <g transform="translate(10 20)"> <rect/> </g> </svg>"###,
    r###"<svg> <rect transform="translate(10 20)"/> </svg>"###,
    r###"<svg> <g transform="translate(10 20)"> <rect transform="translate(20 30)"/> </g> </svg>"###,
    r###"<svg> <rect transform="translate(30 50)"/> </svg>"###,
    r###"<svg> <g transform="translate(10 20)"> <g transform="translate(20 30)"> <rect/> </g> </g> </svg>"###,
    r###"<svg> <g transform="translate(10 20)"> <g transform="translate(20 30)"> <g> <rect/> </g> </g> <g> <rect/> </g> </g> </svg>"###,
    r###"<svg> <rect transform="translate(30 50)"/> <rect transform="translate(10 20)"/> </svg>"###,
    r###"<svg> <g transform="translate(10 20)"> <rect transform="translate(10 20)"/> <rect transform="translate(10 20)"/> </g> <g fill="#ff0000" transform="translate(10 20)"> <rect transform="translate(10 20)"/> <rect transform="translate(10 20)"/> </g> </svg>"###,
    r###"<svg> <rect transform="translate(20 40)"/> <rect transform="translate(20 40)"/> <g fill="#ff0000"> <rect transform="translate(20 40)"/> <rect transform="translate(20 40)"/> </g> </svg>"###,
    r###"<svg> <g transform="translate(10 20)"> <rect/> <rect/> </g> </svg>"###,
    r###"<svg> <rect transform="translate(10 20)"/> <rect transform="translate(10 20)"/> </svg>"###,
    r###"<svg> <g transform="translate(10 20)"> <rect/> <g fill="#ffffff"> <path/> <path/> <path/> </g> </g> </svg>"###,
    r###"<svg> <rect transform="translate(10 20)"/> <g fill="#ffffff"> <path transform="translate(10 20)"/> <path transform="translate(10 20)"/> <path transform="translate(10 20)"/> </g> </svg>"###,
    r###"<svg> <path stroke-width="2"/> </svg>"###,
    r###"<svg> <path stroke-width="4"/> </svg>"###,
    r###"<svg stroke-width="2"> <path /> </svg>"###,
    r###"<svg stroke-width="2"> <path stroke-width="4"/> </svg>"###,
    r###"<svg> <path stroke-dasharray="5 2 5 5 2 5"/> </svg>"###,
    r###"<svg> <path stroke-dasharray="10 4 10 10 4 10" stroke-width="2"/> </svg>"###,
    r###"<svg> <path stroke-dashoffset="2"/> </svg>"###,
    r###"<svg> <path stroke-dashoffset="4" stroke-width="2"/> </svg>"###,
    r###"<svg> <path stroke-dasharray="5 2 5 5 2 5" stroke-dashoffset="2"/> </svg>"###,
    r###"<svg> <path stroke-dasharray="10 4 10 10 4 10" stroke-dashoffset="4" stroke-width="2"/> </svg>"###,
];
/// Path data.
pub const PATHS: &[&str] = &[
    r###"M 10 20 L 30 40"###,
    r###"M 20 40 L 40 60"###,
    r###"M 10 20 C 10 10 25 10 25 20 C 25 30 40 30 40 20"###,
    r###"M 10 20 C 10 10 25 10 25 20 S 40 30 40 20"###,
    r###"M 10 10 C 10 10 10 20 30 40 C 20 35 40 50 60 70 C 80 90 10 20 30 40"###,
    r###"M 10 10 S 10 20 30 40 C 20 35 40 50 60 70 S 10 20 30 40"###,
    r###"M 10 10 C 10 15 10 20 10 40"###,
    r###"M 10 10 L 10 40"###,
    r###"M 10 10 C 10 5 10 20 10 40"###,
    r###"M 10 10 C 10 10 10 40 10 40"###,
    r###"M 10 10 C 15 10 25 10 40 10"###,
    r###"M 10 10 L 40 10"###,
    r###"M 10 10 C 5 10 50 10 40 10"###,
    r###"M 10 10 C 10 10 40 10 40 10"###,
    r###"M 10 118 C 45 83 85 43 120 8"###,
    r###"M 10 118 L 120 8"###,
    r###"M 10 15 C 10 15 72.5 10 72.5 55 C 72.5 100 135 100 135 55 L 10 55"###,
    r###"M 10 15 S 72.5 10 72.5 55 S 135 100 135 55 L 10 55"###,
    r###"M 10 20 H 30 V 40 Z M 10 20 H 30 V 40 Z"###,
    r###"M 10 20 L 30 20 L 30 40 Z M 10 20 L 30 20 L 30 40 Z"###,
    r###"m 10 10 m 20 20 l 10 20"###,
    r###"M 30 30 L 40 50"###,
    r###"m 10 10 20 20 l 10 20"###,
    r###"M 10 10 L 30 30 L 40 50"###,
    r###"M 10 10 M 10 10 M 10 10 M 10 10 L 15 20"###,
    r###"M 10 10 L 15 20"###,
    r###"M 10 10"###,
    r###"M 10 10 Z"###,
    r###"M 10 10 Z M 10 10 Z M 10 10 Z"###,
    r###"M 10 10 L 15 20 M 10 20 Z M 10 20 L 15 30"###,
    r###"M 10 10 L 15 20 M 10 20 L 15 30"###,
    r###"M 10 10 Z Z Z"###,
    r###"M 10 10 L 15 20 Z Z Z M 10 20 L 20 30"###,
    r###"M 10 10 L 15 20 Z M 10 20 L 20 30"###,
    r###"M 10 10 L 10 20 L 10 20 L 10 20 Z"###,
    r###"M 10 10 L 10 20 Z"###,
    r###"M 10 10 L 10 10"###,
    r###"M 10 10 C 20 20 30 30 10 10"###,
    r###"M 10 10 C 20 20 30 30 10 10 C 20 20 30 30 10 10"###,
    r###"M 10 10 L 20 20 L 20 20 L 20 20"###,
    r###"M 10 10 L 20 20"###,
    r###"M 10 10 L 50 50 L 10 10 Z"###,
    r###"M 10 10 L 50 50 Z"###,
    r###"M 10 10 L 50 50 L 10 10"###,
    r###"M 10 10 L 50 50 L 10 10 M 50 50 L 60 60"###,
    r###"M 10 10 L 50 50 Z M 50 50 L 60 60"###,
    r###"M 10 10 L 50 50 L 10 10 M 50 50 L 50 50"###,
];
