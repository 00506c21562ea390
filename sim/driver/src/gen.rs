//! Building blocks of the scenario generators: documents, disks, command lines, fault placement.
use crate::ctx::*;
use crate::docs::{self, Size};
use crate::kernel::OpRec;
use crate::optdocs::OPTDOCS;
use crate::rng::Rng;
use crate::scenario::*;
use crate::vfs::Vfs;

#[derive(Clone, Debug)]
pub struct Doc {
    pub bytes: Vec<u8>,
    /// What the document is by construction: "valid", "refused", "malformed", "utf8".
    pub kind: &'static str,
    pub detail: String,
    /// Options that go with it.
    pub flags: Vec<String>,
}

pub fn valid_doc(r: &mut Rng) -> Doc {
    let flags = docs::options(r);
    let (bytes, detail) = match r.below(10) {
        0..=1 => {
            let d = r.pick(OPTDOCS);
            (d.1.as_bytes().to_vec(), format!("option document {}", d.0))
        }
        2 => {
            // with messages
            let size = docs::pick_size(r);
            (docs::valid(r, size, true, true).into_bytes(), "with warnings".to_string())
        }
        // anything the vocabulary of SVG allows, accepted or not
        3 if r.chance(40) => (docs::rare(r).into_bytes(), "rare".to_string()),
        3 if r.chance(50) => (docs::combined(r).into_bytes(), "combined".to_string()),
        3 => (docs::vocabulary(r).into_bytes(), "vocabulary".to_string()),
        4 => (crate::families::any(r).into_bytes(), "family".to_string()),
        _ => {
            let size = docs::pick_size(r);
            (docs::valid(r, size, false, true).into_bytes(), String::new())
        }
    };
    Doc { bytes: dress(r, bytes, 18), kind: "valid", detail, flags }
}

/// Byte order mark, line ends and borders, as editors and transfers leave them.
pub fn dress(r: &mut Rng, b: Vec<u8>, percent: u32) -> Vec<u8> {
    if !r.chance(percent) {
        return b;
    }
    let t = match String::from_utf8(b) {
        Ok(t) => t,
        Err(e) => return e.into_bytes(),
    };
    match r.below(6) {
        0 | 1 => format!("\u{feff}{}", t),
        2 => t.replace('\n', "\r\n"),
        3 => t.replace('\n', "\r"),
        4 => t.trim_end().to_string(),
        _ => format!("{}{}", t, "\n \t".repeat(1 + r.below(12))),
    }.into_bytes()
}

pub fn refused_doc(r: &mut Rng) -> Doc {
    let (s, k) = docs::refused(r);
    Doc { bytes: dress(r, s.into_bytes(), 18), kind: "refused", detail: k, flags: docs::options(r) }
}
pub fn malformed_doc(r: &mut Rng) -> Doc {
    let (s, k) = docs::malformed(r);
    Doc { bytes: s.into_bytes(), kind: "malformed", detail: k, flags: docs::options(r) }
}
pub fn utf8_doc(r: &mut Rng) -> Doc {
    Doc { bytes: docs::not_utf8(r), kind: "utf8", detail: String::new(), flags: docs::options(r) }
}
/// A document whose cleaned form is longer, and the options that make it so.
pub fn bigger_doc(r: &mut Rng, ctx: &mut Ctx) -> Option<Doc> {
    let size = if r.chance(70) { Size::Small } else { Size::Medium };
    let d = docs::valid(r, size, false, true);
    let c = match ctx.clean(d.as_bytes(), &[]) {
        Res::Ok(b) => b,
        _ => return None,
    };
    let flags: Vec<String> = match r.below(3) {
        0 => vec!["--no-defaults".into(), format!("--indent={}", r.pick(&["2", "4", "tabs"]))],
        1 => vec![format!("--indent={}", r.pick(&["1", "4", "tabs"]))],
        _ => vec!["--no-defaults".into(), "--list-separator=comma-space".into(), "--indent=3".into()],
    };
    match ctx.clean(&c, &flags) {
        Res::Ok(b) if b.len() > c.len() => Some(Doc { bytes: c, kind: "valid", detail: "bigger".into(), flags }),
        _ => None,
    }
}

/// Any document: mostly valid.
pub fn any_doc(r: &mut Rng, bad_percent: u32) -> Doc {
    if r.chance(bad_percent) {
        match r.below(8) {
            0..=4 => refused_doc(r),
            5 | 6 => malformed_doc(r),
            _ => utf8_doc(r),
        }
    } else {
        valid_doc(r)
    }
}

pub const OLD: &[u8] = b"<svg xmlns=\"http://www.w3.org/2000/svg\"><!-- the earlier picture --><rect width=\"11\" height=\"12\"/></svg>\n";

/// Earlier content of a destination.
pub fn old_content(r: &mut Rng, near: usize) -> Vec<u8> {
    match r.below(5) {
        0 => vec![],
        1 => OLD.to_vec(),
        2 => {
            // longer than anything the run will write
            let mut v = OLD.to_vec();
            while v.len() < near + 200 {
                v.extend_from_slice(b"old old old old\n");
            }
            v
        }
        3 => (0..1 + r.below(40)).map(|i| (r.next() >> (i % 3)) as u8).collect(),
        _ => vec![b'x'; near],
    }
}

pub fn bystanders() -> Vec<FileSpec> {
    vec![
        FileSpec::file("/w/other.svg", b"<svg xmlns=\"http://www.w3.org/2000/svg\"><g id=\"other\"/></svg>"),
        FileSpec::file("/w/in.svg.bak", b"backup"),
        FileSpec::file("/w/out.svg.tmp", b"temporary"),
        FileSpec::file("/w/out.svg~", b"older"),
        FileSpec::file("/w/readme.txt", b"text"),
        FileSpec::file("/tmp/svgcleaner.tmp", b"tmp"),
        FileSpec::Symlink { path: "/w/link.svg".into(), target: "other.svg".into() },
    ]
}

pub fn channel(r: &mut Rng) -> (bool, bool) {
    match r.below(8) {
        0..=4 => (true, true),
        5 => (true, false),
        6 => (false, true),
        _ => (false, false),
    }
}

/// A single run: document, command, disk.
pub struct World {
    pub files: Vec<FileSpec>,
    pub p: Proc,
    pub out_path: Option<String>,
    pub in_path: Option<String>,
}

pub fn tune(r: &mut Rng, c: &mut Cmd) {
    c.multipass = r.chance(20);
    c.allow_bigger = r.chance(55);
    c.copy_on_error = r.chance(25);
    c.quiet = r.chance(25);
    c.newline = r.chance(20);
    c.spelling = r.below(32) as u32;
}

pub fn world(r: &mut Rng, d: &Doc, chan: (bool, bool)) -> World {
    let inp = *r.pick(&["in.svg", "in.svg", "in.svg", "./in.svg", "/w/in.svg", "pics/in.SVG", "b\u{e4}r.svg", "a b.svg"]);
    let out = *r.pick(&["out.svg", "out.svg", "out.svg", "/w/out.svg", "res/out.svg", "out.SVG", "in.svg.svg"]);
    let mut files = bystanders();
    files.push(FileSpec::Dir { path: "/w/pics".into(), mode: 0o755 });
    files.push(FileSpec::Dir { path: "/w/res".into(), mode: 0o755 });
    let mut in_path = None;
    let mut out_path = None;
    if chan.0 {
        let p = Vfs::absolute("/w", inp);
        files.push(FileSpec::file(&p, &d.bytes));
        in_path = Some(p);
    }
    if chan.1 {
        let p = Vfs::absolute("/w", out);
        match r.below(10) {
            0..=3 => {}
            4 => {
                // the name is a link to the real destination
                let q = "/w/res/real.svg";
                files.push(FileSpec::file(q, &old_content(r, d.bytes.len())));
                files.push(FileSpec::Symlink { path: p.clone(), target: q.into() });
            }
            5 => {
                files.push(FileSpec::file(&p, &old_content(r, d.bytes.len())));
                if let Some(FileSpec::File { mode, .. }) = files.last_mut() {
                    *mode = 0o600;
                }
            }
            _ => files.push(FileSpec::file(&p, &old_content(r, d.bytes.len()))),
        }
        out_path = Some(p);
    }
    let pl = |f: bool, n: &str| if f { Place::File(n.to_string()) } else { Place::Std };
    let mut c = Cmd::new(pl(chan.0, inp), pl(chan.1, out));
    c.flags = d.flags.clone();
    tune(r, &mut c);
    let mut p = Proc::cli(c);
    if !chan.0 {
        p.stdin = InSpec::Bytes { data: Blob(d.bytes.clone()) };
    }
    p.stdout = OutSpec::Sink { kind: r.pick(&["pipe", "file", "tty"]).to_string() };
    p.stderr = OutSpec::Sink { kind: r.pick(&["pipe", "file", "tty"]).to_string() };
    if r.chance(10) {
        p.env.no_statx = true;
    }
    if r.chance(15) {
        p.env.no_cfr = true;
    }
    World { files, p, out_path, in_path }
}

pub fn frag(r: &mut Rng) -> Frag {
    Frag {
        seed: r.next(),
        rmax: *r.pick(&[0, 1, 2, 3, 7, 64, 512, 4096]),
        wmax: *r.pick(&[0, 1, 2, 5, 100, 1000, 4096]),
        eintr: *r.pick(&[0, 0, 5, 20, 50]),
        lat: *r.pick(&[0, 0, 1_000, 1_000_000, 300_000_000]),
    }
}
/// Fragmentation that keeps the number of calls moderate.
pub fn frag_for(r: &mut Rng, len: usize) -> Frag {
    let mut f = frag(r);
    if len > 20_000 {
        let m = (len / 500) as u32;
        if f.rmax > 0 {
            f.rmax = f.rmax.max(m);
        }
        if f.wmax > 0 {
            f.wmax = f.wmax.max(m);
        }
    }
    f
}

pub fn errnos(op: &str, obj: &str) -> &'static [i32] {
    use libc::*;
    match op {
        "open" => &[EACCES, EIO, EMFILE, ENFILE, ENOMEM, EINTR, ELOOP, EROFS, ENOSPC, EBUSY, ETXTBSY, EPERM],
        "read" => &[EIO, EAGAIN, EINTR, ENOMEM, ESTALE, EISDIR],
        "write" if obj == "stdout" => &[EPIPE, EIO, ENOSPC, EAGAIN, EAGAIN, EINTR, ECONNRESET, 0],
        "write" if obj == "stderr" => &[EPIPE, EIO, ENOSPC, EAGAIN, EINTR, ECONNRESET],
        "write" => &[ENOSPC, EIO, EDQUOT, EFBIG, EINTR, EROFS, 0],
        "copyrange" | "sendfile" => &[EIO, ENOSPC, EDQUOT, EFBIG, ENOMEM],
        "fstat" | "stat" => &[EIO, ENOMEM, EACCES, ESTALE, EOVERFLOW],
        "isatty" | "close" | "lseek" | "dup" => &[EIO],
        _ => &[EIO, EACCES, ENOSPC, EROFS],
    }
}

pub const SKIP: &[&str] = &["allocevt", "deadlock", "steps", "sleep", "sched", "hello", "close"];

/// Position of one recorded call, such that it can be met again in another run.
pub fn at_of(trace: &[OpRec], k: usize) -> At {
    let t = &trace[k];
    let nth = trace[..k].iter().filter(|o| o.proc == t.proc && o.op == t.op && o.obj == t.obj).count();
    At { op: t.op.into(), obj: t.obj.clone(), nth: nth as u32 }
}

pub fn pick_op(r: &mut Rng, trace: &[OpRec], pred: impl Fn(&OpRec) -> bool) -> Option<usize> {
    let c: Vec<usize> = (0..trace.len()).filter(|i| !SKIP.contains(&trace[*i].op) && pred(&trace[*i])).collect();
    if c.is_empty() {
        None
    } else {
        Some(*r.pick(&c))
    }
}

/// A disturbance of one call.
pub fn fault_at(r: &mut Rng, trace: &[OpRec], k: usize, kills: bool) -> Fault {
    let t = &trace[k];
    let at = at_of(trace, k);
    let transfer = matches!(t.op, "read" | "write" | "copyrange" | "sendfile");
    let size = t.ret.max(1) as usize;
    let act = match r.below(12) {
        0..=4 => Act::Errno(*r.pick(errnos(t.op, &t.obj))),
        5 | 6 if transfer => Act::Short(1 + r.below(size) as u32),
        7 | 8 if transfer => {
            let e = *r.pick(errnos(t.op, &t.obj));
            Act::FailFrom(r.below(size + 1) as u64, if e == libc::EINTR { libc::EIO } else { e })
        }
        9 if kills => Act::KillBefore,
        10 if kills => Act::KillAfter,
        11 if kills && matches!(t.op, "write" | "copyrange") => Act::KillMid(r.below(size) as u32),
        _ => Act::Errno(*r.pick(errnos(t.op, &t.obj))),
    };
    let (mut at, mut times) = (at, 1);
    if let Act::FailFrom(..) = act {
        at.nth = 0;
        times = 1_000_000;
    } else if matches!(act, Act::Errno(e) if e != libc::EINTR) && r.chance(20) {
        times = 1_000_000;
    }
    Fault { at, act, times }
}

/// Baseline of a scenario, not counted as exploration.
pub fn baseline(ctx: &mut Ctx, s: &Scenario) -> Outcome {
    let mut b = s.clone();
    for st in &mut b.steps {
        if let Step::Run { procs, .. } = st {
            for p in procs.iter_mut() {
                p.faults.clear();
                p.alloc = AllocPlan::default();
                if let InSpec::Stalls { data } = &p.stdin {
                    p.stdin = InSpec::Bytes { data: data.clone() };
                }
            }
        }
    }
    b.capacity = None;
    ctx.quietly(|c| c.run(&b))
}

/// Pads the document with white space at its end (cleaning drops it).
pub fn pad(doc: &[u8], n: usize) -> Vec<u8> {
    let mut v = doc.to_vec();
    v.extend(std::iter::repeat(b' ').take(n));
    v
}

/// Many megabytes of white space before the last element: cut anywhere in there it is still a document.
pub fn huge(r: &mut Rng, doc: &[u8]) -> Vec<u8> {
    let t = String::from_utf8_lossy(doc).to_string();
    let k = match t.rfind("</svg") {
        Some(k) => k,
        None => return doc.to_vec(),
    };
    let n = *r.pick(&[1usize << 20, 1 << 22, 10_000_000, 1 << 24, 1 << 25, 1 << 26]) + r.below(70_000);
    let mut v = t[..k].as_bytes().to_vec();
    v.extend(std::iter::repeat(b' ').take(n));
    v.extend_from_slice(b"<path d=\"M 1 2 L 3 4\"/>");
    v.extend_from_slice(t[k..].as_bytes());
    v
}
