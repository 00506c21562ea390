// A program that uses the svgcleaner library, run under the simulator.
//
// libhost clean FLAGS...   cleans standard input, prints a status line and the result
// libhost script           runs the jobs described on standard input, possibly on several
//                          threads, and prints each job's result
//
// The meaning of the flags is written down here independently of /repo/src/cli.rs,
// from docs/svgcleaner.adoc and the help text.
extern crate svgcleaner;
extern crate svgdom;

use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

use svgcleaner::{cleaner, CleaningOptions, ParseOptions, StyleJoinMode, WriteOptions};
use svgdom::{AttributesOrder, Indent, ListSeparator};

struct Opts {
    parse: ParseOptions,
    write: WriteOptions,
    clean: CleaningOptions,
}

// Every yes/no flag with its documented default.
const FLAGS: &[(&str, bool)] = &[
    ("remove-comments", true),
    ("remove-declarations", true),
    ("remove-nonsvg-elements", true),
    ("remove-unused-defs", true),
    ("convert-shapes", true),
    ("remove-title", true),
    ("remove-desc", true),
    ("remove-metadata", true),
    ("remove-dupl-lineargradient", true),
    ("remove-dupl-radialgradient", true),
    ("remove-dupl-fegaussianblur", true),
    ("ungroup-groups", true),
    ("ungroup-defs", true),
    ("group-by-style", true),
    ("merge-gradients", true),
    ("regroup-gradient-stops", true),
    ("remove-invalid-stops", true),
    ("remove-invisible-elements", true),
    ("resolve-use", true),
    ("remove-version", true),
    ("remove-nonsvg-attributes", true),
    ("remove-unreferenced-ids", true),
    ("trim-ids", true),
    ("remove-text-attributes", true),
    ("remove-unused-coordinates", true),
    ("remove-default-attributes", true),
    ("remove-xmlns-xlink-attribute", true),
    ("remove-needless-attributes", true),
    ("remove-gradient-attributes", false),
    ("apply-transform-to-gradients", true),
    ("apply-transform-to-shapes", true),
    ("remove-unresolved-classes", true),
    ("paths-to-relative", true),
    ("remove-unused-segments", true),
    ("convert-segments", true),
    ("apply-transform-to-paths", false),
    ("trim-paths", true),
    ("join-arcto-flags", false),
    ("remove-dupl-cmd-in-paths", true),
    ("use-implicit-cmds", true),
    ("trim-colors", true),
    ("append-newline", false),
    ("simplify-transforms", true),
];

fn options(flags: &[String]) -> Opts {
    let no_defaults = flags.iter().any(|f| f == "--no-defaults");
    let get = |name: &str| -> Option<String> {
        let pre = format!("--{}=", name);
        flags.iter().find(|f| f.starts_with(&pre)).map(|f| f[pre.len()..].to_string())
    };
    let on = |name: &str| -> bool {
        match get(name) {
            Some(v) => v == "yes" || v == "y" || v == "true",
            None if no_defaults => {
                // Resetting the defaults keeps unknown classes skipped unless asked otherwise.
                name == "remove-unresolved-classes"
            }
            None => FLAGS.iter().find(|f| f.0 == name).expect("unknown flag").1,
        }
    };
    let num = |name: &str, def: u8| get(name).map(|v| v.parse().unwrap()).unwrap_or(def);

    Opts {
        parse: ParseOptions {
            parse_comments: !on("remove-comments"),
            parse_declarations: !on("remove-declarations"),
            parse_unknown_elements: !on("remove-nonsvg-elements"),
            parse_unknown_attributes: !on("remove-nonsvg-attributes"),
            parse_px_unit: false,
            skip_unresolved_classes: on("remove-unresolved-classes"),
            skip_invalid_attributes: false,
            skip_invalid_css: false,
            skip_paint_fallback: false,
        },
        write: WriteOptions {
            indent: match get("indent").as_deref().unwrap_or("none") {
                "none" => Indent::None,
                "tabs" => Indent::Tabs,
                n => Indent::Spaces(n.parse().unwrap()),
            },
            attributes_indent: Indent::None,
            use_single_quote: false,
            trim_hex_colors: on("trim-colors"),
            write_hidden_attributes: false,
            remove_leading_zero: true,
            use_compact_path_notation: on("trim-paths"),
            join_arc_to_flags: on("join-arcto-flags"),
            remove_duplicated_path_commands: on("remove-dupl-cmd-in-paths"),
            use_implicit_lineto_commands: on("use-implicit-cmds"),
            simplify_transform_matrices: on("simplify-transforms"),
            list_separator: match get("list-separator").as_deref().unwrap_or("space") {
                "space" => ListSeparator::Space,
                "comma" => ListSeparator::Comma,
                _ => ListSeparator::CommaSpace,
            },
            attributes_order: AttributesOrder::Alphabetical,
        },
        clean: CleaningOptions {
            remove_unused_defs: on("remove-unused-defs"),
            convert_shapes: on("convert-shapes"),
            remove_title: on("remove-title"),
            remove_desc: on("remove-desc"),
            remove_metadata: on("remove-metadata"),
            remove_dupl_linear_gradients: on("remove-dupl-lineargradient"),
            remove_dupl_radial_gradients: on("remove-dupl-radialgradient"),
            remove_dupl_fe_gaussian_blur: on("remove-dupl-fegaussianblur"),
            ungroup_groups: on("ungroup-groups"),
            ungroup_defs: on("ungroup-defs"),
            group_by_style: on("group-by-style"),
            merge_gradients: on("merge-gradients"),
            regroup_gradient_stops: on("regroup-gradient-stops"),
            remove_invalid_stops: on("remove-invalid-stops"),
            remove_invisible_elements: on("remove-invisible-elements"),
            resolve_use: on("resolve-use"),
            remove_version: on("remove-version"),
            remove_unreferenced_ids: on("remove-unreferenced-ids"),
            trim_ids: on("trim-ids"),
            remove_text_attributes: on("remove-text-attributes"),
            remove_unused_coordinates: on("remove-unused-coordinates"),
            remove_default_attributes: on("remove-default-attributes"),
            remove_xmlns_xlink_attribute: on("remove-xmlns-xlink-attribute"),
            remove_needless_attributes: on("remove-needless-attributes"),
            remove_gradient_attributes: on("remove-gradient-attributes"),
            join_style_attributes: match get("join-style-attributes").as_deref().unwrap_or("some") {
                "no" => StyleJoinMode::None,
                "some" => StyleJoinMode::Some,
                _ => StyleJoinMode::All,
            },
            apply_transform_to_gradients: on("apply-transform-to-gradients"),
            apply_transform_to_shapes: on("apply-transform-to-shapes"),
            paths_to_relative: on("paths-to-relative"),
            remove_unused_segments: on("remove-unused-segments"),
            convert_segments: on("convert-segments"),
            append_newline: false, // added when saving, by the caller
            apply_transform_to_paths: on("apply-transform-to-paths"),
            coordinates_precision: num("coordinates-precision", 6),
            properties_precision: num("properties-precision", 6),
            paths_coordinates_precision: num("paths-coordinates-precision", 8),
            transforms_precision: num("transforms-precision", 8),
        },
    }
}

fn run(doc: &[u8], flags: &[String]) -> Vec<u8> {
    let r = catch_unwind(AssertUnwindSafe(|| -> Vec<u8> {
        let text = match std::str::from_utf8(doc) {
            Ok(t) => t,
            Err(_) => return b"UTF8\n".to_vec(),
        };
        let o = options(flags);
        let mut d = match cleaner::parse_data(text, &o.parse) {
            Ok(d) => d,
            Err(e) => return format!("PARSE {}\n", e).into_bytes(),
        };
        if let Err(e) = cleaner::clean_doc(&mut d, &o.clean, &o.write) {
            return format!("CLEAN {}\n", e).into_bytes();
        }
        let mut buf = Vec::new();
        cleaner::write_buffer(&d, &o.write, &mut buf);
        let mut out = b"OK\n".to_vec();
        out.extend_from_slice(&buf);
        out
    }));
    r.unwrap_or_else(|_| b"PANIC\n".to_vec())
}

struct Job {
    thread: usize,
    flags: Vec<String>,
    doc: Vec<u8>,
}

fn parse_script(mut s: &[u8]) -> Vec<Job> {
    let mut jobs = Vec::new();
    while !s.is_empty() {
        let nl = s.iter().position(|c| *c == b'\n').expect("header");
        let head = std::str::from_utf8(&s[..nl]).unwrap();
        let mut w = head.split(' ');
        let thread = w.next().unwrap().parse().unwrap();
        let len: usize = w.next().unwrap().parse().unwrap();
        let flags = w.filter(|f| !f.is_empty()).map(|f| f.to_string()).collect();
        s = &s[nl + 1..];
        jobs.push(Job { thread, flags, doc: s[..len].to_vec() });
        s = &s[len + 1..];
    }
    jobs
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut input = Vec::new();
    std::io::stdin().read_to_end(&mut input).unwrap();
    let mut out = Vec::new();
    match args.get(1).map(|s| s.as_str()) {
        Some("clean") => out = run(&input, &args[2..]),
        Some("script") => {
            let jobs = Arc::new(parse_script(&input));
            let n = jobs.iter().map(|j| j.thread).max().unwrap_or(0);
            let results: Arc<Mutex<Vec<Vec<u8>>>> = Arc::new(Mutex::new(vec![Vec::new(); jobs.len()]));
            let work = |t: usize, jobs: &[Job], results: &Mutex<Vec<Vec<u8>>>| {
                for (i, j) in jobs.iter().enumerate() {
                    if j.thread == t {
                        let r = run(&j.doc, &j.flags);
                        results.lock().unwrap()[i] = r;
                    }
                }
            };
            // Thread 0 is the main thread; it works while the others do.
            let mut hs = Vec::new();
            for t in 1..n + 1 {
                let (jobs, results) = (jobs.clone(), results.clone());
                hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || work(t, &jobs, &results)).unwrap());
            }
            work(0, &jobs, &results);
            for h in hs {
                h.join().unwrap();
            }
            for r in results.lock().unwrap().iter() {
                out.extend_from_slice(format!("{}\n", r.len()).as_bytes());
                out.extend_from_slice(r);
            }
        }
        _ => std::process::exit(64),
    }
    let mut so = std::io::stdout();
    so.write_all(&out).unwrap();
    so.flush().unwrap();
}
