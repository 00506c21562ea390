//! The properties: how scenarios for each are generated and how their executions are judged.
use crate::ctx::*;
use crate::docs::{self, Size};
use crate::gen::*;
use crate::kernel::*;
use crate::rng::Rng;
use crate::scenario::*;
use crate::vfs::*;
use crate::xmlcheck;

#[derive(Clone, Debug, Default)]
pub struct Verdict {
    /// Class of violation (stable under minimisation) and description.
    pub fail: Option<(String, String)>,
    /// The run met what the property is about.
    pub nontrivial: bool,
    /// A listed finding showed.
    pub known: Option<(&'static str, String)>,
    pub hash: u64,
}
impl Verdict {
    fn bad(class: &str, msg: String) -> Verdict {
        Verdict { fail: Some((class.into(), msg)), nontrivial: true, known: None, hash: 0 }
    }
    fn ok(nontrivial: bool) -> Verdict {
        Verdict { nontrivial, ..Verdict::default() }
    }
}

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
];

pub fn gen(prop: &str, seed: u64, ctx: &mut Ctx) -> Option<Scenario> {
    let mut r = Rng::new(seed);
    let mut s = match prop {
        "C01" => gen01(&mut r, ctx),
        "C02" => gen02(&mut r, ctx),
        "C03" => gen03(&mut r, ctx),
        "C04" => gen04(&mut r, ctx),
        "C05" => gen05(&mut r, ctx),
        "C06" => gen06(&mut r, ctx),
        "C07" => gen07(&mut r, ctx),
        "C08" => gen08(&mut r, ctx),
        "C09" => gen09(&mut r, ctx),
        "C10" => gen10(&mut r, ctx),
        "C11" => gen11(&mut r, ctx),
        "C12" => gen12(&mut r, ctx),
        "C13" => gen13(&mut r, ctx),
        "C14" => gen14(&mut r, ctx),
        "C15" => gen15(&mut r, ctx),
        "C16" => gen16(&mut r, ctx),
        "C17" => gen17(&mut r, ctx),
        "C18" => gen18(&mut r, ctx),
        _ => panic!("unknown property {}", prop),
    }?;
    s.seed = seed;
    near_miss(&mut r, &mut s, ctx);
    Some(s)
}

/// Sometimes the destination already holds something that is easily taken for what the run will put there.
fn near_miss(r: &mut Rng, s: &mut Scenario, ctx: &mut Ctx) {
    if !r.chance(15) || !s.steps.iter().any(|t| matches!(t, Step::Run { .. })) {
        return;
    }
    let p = s.proc0().clone();
    let cmd = match &p.prog {
        Prog::Cli(c) if c.raw.is_none() => c.clone(),
        _ => return,
    };
    let mut out = match place_path(&p, &cmd.output) {
        Some(o) => o,
        None => return,
    };
    for f in &s.files {
        if let FileSpec::Symlink { path, target } = f {
            if *path == out {
                out = Vfs::absolute("/w", target);
                break;
            }
        }
    }
    // not the input of any run, under any name
    if s.files.iter().any(|f| matches!(f, FileSpec::Hardlink { path, to } if *path == out || *to == out)) {
        return;
    }
    let inputs: Vec<String> = s.procs().iter().filter_map(|p| match &p.prog { Prog::Cli(c) => place_path(p, &c.input), _ => None }).collect();
    if inputs.contains(&out) || s.files.iter().any(|f| matches!(f, FileSpec::Symlink { path, .. } if inputs.contains(path))) {
        return;
    }
    let doc = match (place_path(&p, &cmd.input), &p.stdin) {
        (Some(i), _) => s.files.iter().find_map(|f| match f { FileSpec::File { path, data, .. } if *path == i => Some(data.0.clone()), _ => None }),
        (None, InSpec::Bytes { data }) => Some(data.0.clone()),
        _ => None,
    };
    let doc = match doc {
        Some(d) if !d.is_empty() => d,
        _ => return,
    };
    let res = match ctx.want(&cmd, &doc) {
        Want::Deliver(a) => a[0].clone(),
        _ => doc.clone(),
    };
    if res.is_empty() {
        return;
    }
    let n = res.len();
    let k = r.below(n);
    let mut old = res.clone();
    match r.below(7) {
        0 => old = vec![b'x'; n],
        1 => old = vec![0; n],
        2 => old[k] ^= 1,
        3 => old[k..].iter_mut().for_each(|b| *b = 0),
        4 => old[n - 1] ^= 1,
        5 => old.truncate(k),
        _ => old.extend_from_slice(b"tail of an earlier result"),
    }
    for f in &mut s.files {
        if let FileSpec::File { path, data, .. } = f {
            if *path == out {
                *data = Blob(old.clone());
            }
        }
    }
}

pub fn judge(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    match s.prop.as_str() {
        "C01" => judge01(s, ctx),
        "C02" => judge02(s, ctx),
        "C03" => judge03(s, ctx),
        "C04" => judge04(s, ctx),
        "C05" => judge05(s, ctx),
        "C06" => judge06(s, ctx),
        "C07" => judge07(s, ctx),
        "C08" => judge08(s, ctx),
        "C09" => judge09(s, ctx),
        "C10" => judge10(s, ctx),
        "C11" => judge11(s, ctx),
        "C12" => judge12(s, ctx),
        "C13" => judge13(s, ctx),
        "C14" => judge14(s, ctx),
        "C15" => judge15(s, ctx),
        "C16" => judge16(s, ctx),
        "C17" => judge17(s, ctx),
        "C18" => judge18(s, ctx),
        p => panic!("unknown property {}", p),
    }
}

// ------------------------------------------------------------------ views
pub struct View<'a> {
    pub p: &'a Proc,
    pub o: &'a ProcOut,
    pub pre: &'a Vfs,
    pub post: &'a Vfs,
    pub log: &'a [Mutation],
    pub trace: &'a [OpRec],
    pub idx: usize,
    pub said: Said,
    /// Absolute names (links not followed).
    pub inp: Option<String>,
    pub out: Option<String>,
    /// The document as it was when the run started.
    pub doc: Option<Vec<u8>>,
}

pub fn place_path(p: &Proc, pl: &Place) -> Option<String> {
    match pl {
        Place::File(n) => Some(Vfs::absolute(&p.env.cwd, n)),
        Place::Std => None,
    }
}

pub fn view<'a>(s: &'a Scenario, o: &'a Outcome, g: usize, i: usize) -> View<'a> {
    let mut k = 0;
    let mut found = None;
    for st in &s.steps {
        if let Step::Run { procs, .. } = st {
            if k == g {
                found = Some(&procs[i]);
            }
            k += 1;
        }
    }
    let p = found.expect("no such run");
    let po = &o.groups[g].procs[i];
    let (pre, post) = (&o.pre[g], &o.post[g]);
    let (inp, out) = match &p.prog {
        Prog::Cli(c) => (place_path(p, &c.input), place_path(p, &c.output)),
        _ => (None, None),
    };
    let doc = match (&inp, &p.stdin) {
        (Some(f), _) => pre.content(f).map(|b| b.to_vec()),
        (None, InSpec::Bytes { data }) | (None, InSpec::Fails { data, .. }) | (None, InSpec::Stalls { data }) => Some(data.0.clone()),
        _ => None,
    };
    let (a, b) = o.log_span[g];
    View { p, o: po, pre, post, log: &o.post[g].log[a..b], trace: &o.groups[g].trace, idx: i, said: Said::new(&po.stderr), inp, out, doc }
}

impl<'a> View<'a> {
    pub fn cmd(&self) -> &Cmd {
        self.p.cmd()
    }
    pub fn dest_pre(&self) -> Option<Vec<u8>> {
        self.out.as_ref().and_then(|p| self.pre.content(p)).map(|b| b.to_vec())
    }
    pub fn dest_post(&self) -> Option<Vec<u8>> {
        match &self.out {
            Some(p) => self.post.content(p).map(|b| b.to_vec()),
            None => Some(self.o.stdout.clone()),
        }
    }
    /// Canonical name of the destination file.
    pub fn dest_name(&self) -> Option<String> {
        self.out.as_ref().map(|p| self.pre.canonical(p).unwrap_or_else(|| p.clone()))
    }
    pub fn in_name(&self) -> Option<String> {
        self.inp.as_ref().map(|p| self.pre.canonical(p).unwrap_or_else(|| p.clone()))
    }
    pub fn alias(&self) -> bool {
        match (&self.inp, &self.out) {
            (Some(a), Some(b)) => match (self.pre.ino_of(a), self.pre.ino_of(b)) {
                (Some(x), Some(y)) => x == y,
                _ => false,
            },
            _ => false,
        }
    }
    pub fn normal(&self) -> bool {
        matches!(self.o.exit, Exit::Code(_)) && !self.panicked()
    }
    pub fn panicked(&self) -> bool {
        self.said.panicked || self.o.exit == Exit::Code(101) || matches!(self.o.exit, Exit::Signal(_)) && !self.said.oom && self.o.alloc_fired == 0
    }
    pub fn killed(&self) -> bool {
        self.o.exit == Exit::Killed
    }
    /// Changes this process made to the destination's name or file.
    pub fn dest_changes(&self) -> Vec<&Mutation> {
        let (n, i) = match &self.out {
            Some(p) => (self.dest_name().unwrap(), self.pre.ino_of(p)),
            None => return vec![],
        };
        let raw = self.out.clone().unwrap();
        self.log.iter().filter(|m| m.proc == self.idx as i32 && m.what != What::Utimes && (Some(m.ino) == i || m.path == n || m.path == raw)).collect()
    }
    pub fn input_changes(&self) -> Vec<&Mutation> {
        let (n, i) = match &self.inp {
            Some(p) => (self.in_name().unwrap(), self.pre.ino_of(p)),
            None => return vec![],
        };
        let raw = self.inp.clone().unwrap();
        self.log.iter().filter(|m| m.proc == self.idx as i32 && m.what != What::Utimes && (Some(m.ino) == i || m.path == n || m.path == raw)).collect()
    }
    /// Step at which the last byte of the input had been received, if it was.
    pub fn read_done(&self) -> Option<u64> {
        let obj = self.in_name().unwrap_or_else(|| "stdin".into());
        let len = self.doc.as_ref()?.len() as i64;
        let mut n = 0;
        for t in self.trace.iter().filter(|t| t.proc == self.idx && t.op == "read" && t.obj == obj && t.ret >= 0) {
            n += t.ret;
            if n >= len {
                return Some(t.step);
            }
        }
        None
    }
    /// A read of the input failed before its end had been seen.
    pub fn read_failed(&self) -> bool {
        let obj = self.in_name().unwrap_or_else(|| "stdin".into());
        for t in self.trace.iter().filter(|t| t.proc == self.idx && t.op == "read" && t.obj == obj) {
            if t.ret == 0 {
                return false;
            }
            if t.ret < 0 && t.err != libc::EINTR {
                return true;
            }
        }
        false
    }
    fn what(&self) -> String {
        format!("svgcleaner {} -> {:?}, stderr {:?}", self.cmd().argv().join(" "), self.o.exit, short(&self.o.stderr))
    }
}

pub fn short(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    if t.chars().count() <= 160 {
        t.to_string()
    } else {
        let h: String = t.chars().take(110).collect();
        format!("{}... ({} bytes)", h, b.len())
    }
}
fn opt(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "absent".into(),
        Some(b) => format!("{:?}", short(b)),
    }
}

fn finish(mut v: Verdict, o: &Outcome) -> Verdict {
    v.hash = o.hash;
    v
}
fn fails(o: &Outcome, class: &str, msg: String) -> Verdict {
    finish(Verdict::bad(class, msg), o)
}

/// Everything a user can see of a run.
#[derive(PartialEq, Clone, Debug)]
struct Seen {
    exit: Exit,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    dest: Option<Vec<u8>>,
}
fn seen(v: &View) -> Seen {
    Seen { exit: v.o.exit.clone(), stdout: v.o.stdout.clone(), stderr: v.o.stderr.clone(), dest: v.out.as_ref().and_then(|p| v.post.content(p)).map(|b| b.to_vec()) }
}
impl Seen {
    fn diff(&self, o: &Seen) -> Option<(String, String)> {
        if self.dest != o.dest {
            return Some(("destination".into(), format!("destination {} instead of {}", opt(&self.dest), opt(&o.dest))));
        }
        if self.stdout != o.stdout {
            return Some(("stdout".into(), format!("standard output {:?} instead of {:?}", short(&self.stdout), short(&o.stdout))));
        }
        if self.stderr != o.stderr {
            return Some(("messages".into(), format!("messages {:?} instead of {:?}", short(&self.stderr), short(&o.stderr))));
        }
        if self.exit != o.exit {
            return Some(("exit".into(), format!("ended with {:?} instead of {:?}", self.exit, o.exit)));
        }
        None
    }
}

/// The scenario with every disturbance taken out of its runs.
fn calm(s: &Scenario) -> Scenario {
    let mut c = s.clone();
    c.capacity = None;
    for st in &mut c.steps {
        if let Step::Run { procs, switches, .. } = st {
            for p in procs.iter_mut() {
                *p = p.undisturbed();
            }
            switches.clear();
        }
    }
    c
}

fn one(prop: &str, family: &str, w: World) -> Scenario {
    Scenario::one(prop, family, 0, w.files, w.p)
}

fn alloc_plan(r: &mut Rng, total: u64) -> AllocPlan {
    let at = 1 + r.below(total.max(2) as usize) as u64;
    match r.below(4) {
        0 | 1 => AllocPlan { kill_at: at, ..AllocPlan::default() },
        2 => AllocPlan { fail_at: at, fail_count: 1, fail_min: 0, kill_at: 0 },
        _ => AllocPlan { fail_at: at, fail_count: 1_000_000_000, fail_min: *r.pick(&[0u64, 256, 4096, 65536]), kill_at: 0 },
    }
}

// ------------------------------------------------------------------ C01
/// Makes the output another name of the input. Returns the kind of name.
fn make_alias(r: &mut Rng, w: &mut World) -> &'static str {
    let inp = w.in_path.clone().unwrap();
    let base = inp.rsplit('/').next().unwrap().to_string();
    let stem: String = base.chars().take(base.chars().count() - 4).collect();
    // the old destination disappears
    if let Some(o) = &w.out_path {
        w.files.retain(|f| match f {
            FileSpec::File { path, .. } | FileSpec::Symlink { path, .. } => path != o,
            _ => true,
        });
    }
    let rel = inp.trim_start_matches("/w/").to_string();
    let (out, kind) = match r.below(9) {
        0 => (match &w.p.cmd().input { Place::File(n) => n.clone(), _ => unreachable!() }, "same name"),
        1 => (format!("./{}", rel), "dot"),
        2 => (inp.clone(), "absolute"),
        3 => (format!("res/../{}", rel), "dotdot"),
        4 => {
            w.files.push(FileSpec::Symlink { path: "/w/alias.svg".into(), target: inp.clone() });
            ("alias.svg".into(), "symlink")
        }
        5 => {
            w.files.push(FileSpec::Hardlink { path: "/w/hard.svg".into(), to: inp.clone() });
            ("hard.svg".into(), "hard link")
        }
        6 => {
            w.files.push(FileSpec::Symlink { path: "/l".into(), target: "/w".into() });
            (format!("/l/{}", rel), "linked directory")
        }
        7 => {
            // the input is the link
            w.files.push(FileSpec::Symlink { path: "/w/res/inlink.svg".into(), target: inp.clone() });
            w.p.cmd_mut().input = Place::File("res/inlink.svg".into());
            (rel.clone(), "input is a link")
        }
        _ => {
            w.files.push(FileSpec::Symlink { path: "/w/l1.svg".into(), target: "l2.svg".into() });
            w.files.push(FileSpec::Symlink { path: "/w/l2.svg".into(), target: inp.clone() });
            ("//w//l1.svg".into(), "chain of links")
        }
    };
    let _ = stem;
    w.p.cmd_mut().output = Place::File(out);
    kind
}

fn gen01(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let alias = r.chance(50);
    let d = if r.chance(15) { bigger_doc(r, ctx)? } else { any_doc(r, if alias { 55 } else { 40 }) };
    let chan = if alias || r.chance(80) { (true, true) } else { (true, false) };
    let mut w = world(r, &d, chan);
    if r.chance(60) {
        w.p.cmd_mut().copy_on_error = true;
    }
    if d.detail == "bigger" && r.chance(80) {
        w.p.cmd_mut().allow_bigger = false;
    }
    let fam = if alias { format!("alias: {}", make_alias(r, &mut w)) } else { "separate".to_string() };
    let mut s = one("C01", &fam, w);
    s.note = format!("{} {}", d.kind, d.detail);
    let b = baseline(ctx, &s);
    let tr = &b.groups[0].trace;
    let total = b.p0().nalloc;
    match r.below(10) {
        0 => {}
        1 => s.proc0_mut().alloc = alloc_plan(r, total),
        2 => s.capacity = Some(r.below(d.bytes.len() + 50) as u64),
        _ => {
            for _ in 0..1 + r.below(3) {
                if let Some(k) = pick_op(r, tr, |_| true) {
                    let f = fault_at(r, tr, k, true);
                    s.proc0_mut().faults.push(f);
                }
            }
        }
    }
    if r.chance(20) {
        s.proc0_mut().frag = Some(frag_for(r, d.bytes.len()));
    }
    Some(s)
}

fn judge01(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    let inp = match &v.inp {
        Some(p) => p.clone(),
        None => return finish(Verdict::ok(false), &o),
    };
    let doc = match &v.doc {
        Some(d) => d.clone(),
        None => return finish(Verdict::ok(false), &o),
    };
    let changes = v.input_changes();
    if !v.alias() {
        if let Some(m) = changes.first() {
            return fails(&o, "input-changed", format!("the run changed its input {} ({:?} at step {}); {}", inp, m.what, m.step, v.what()));
        }
        let (a, b) = (v.pre.snapshot(), v.post.snapshot());
        if a.get(&inp) != b.get(&inp) {
            return fails(&o, "input-changed", format!("the input {} is not what it was; {}", inp, v.what()));
        }
        return finish(Verdict::ok(o.fired() > 0 || s.capacity.is_some() || s.proc0().cmd().copy_on_error), &o);
    }
    let fin = v.post.content(&inp).map(|b| b.to_vec());
    let want = ctx.want(v.cmd(), &doc);
    let good = match &fin {
        Some(f) => *f == doc || want.accepts(f),
        None => false,
    };
    if good {
        let mode = |x: &Vfs| x.ino_of(&inp).map(|i| (x.nodes[&i].mode, x.nodes[&i].uid));
        if mode(v.pre) != mode(v.post) {
            return fails(&o, "alias-permissions", format!("permissions or owner of the input changed; {}", v.what()));
        }
        return finish(Verdict::ok(true), &o);
    }
    let msg = format!("the only copy holds {} (original {} bytes, expected {}); {}", opt(&fin), doc.len(),
        match &want { Want::Deliver(a) => format!("it or the result of {} bytes", a[0].len()), w => format!("it, because {:?}", w) }, v.what());
    // The listed finding: an in-place save interrupted after its truncation.
    if let (Want::Deliver(alts), Some(f)) = (&want, &fin) {
        // the save itself was cut short: a kill, no memory, or a failed call on the file
        let refused = v.trace.iter().any(|t| t.proc == v.idx && (t.ret < 0 || t.op == "write" && t.ret == 0)
            && (Some(&t.obj) == v.in_name().as_ref() || t.op == "write" && t.obj.ends_with(".svg")));
        let interrupted = v.killed() || refused || o.p0().alloc_fired > 0;
        let prefix = alts.iter().any(|a| a.len() > f.len() && &a[..f.len()] == &f[..]);
        let after_read = match v.read_done() {
            Some(st) => changes.iter().all(|m| m.step > st),
            None => false,
        };
        let plain = changes.iter().all(|m| matches!(m.what, What::Trunc | What::Write));
        if interrupted && prefix && after_read && plain && o.fired() + s.capacity.is_some() as u32 > 0 && !v.panicked() {
            return finish(Verdict { known: Some(("F1", format!("in-place save interrupted: {}", msg))), nontrivial: true, ..Verdict::default() }, &o);
        }
    }
    fails(&o, if want.delivers() { "alias-lost" } else { "alias-lost-refused" }, msg)
}

// ------------------------------------------------------------------ C02
fn gen02(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let kind = r.below(20);
    let d = match kind {
        0..=5 => refused_doc(r),
        6 | 7 => malformed_doc(r),
        8 => utf8_doc(r),
        9 | 10 => bigger_doc(r, ctx)?,
        _ => valid_doc(r),
    };
    let ch = match r.below(6) { 0 => (true, false), 1 => (false, true), 2 => (false, false), _ => (true, true) };
    let mut w = world(r, &d, ch);
    w.p.cmd_mut().copy_on_error = false;
    let mut note = format!("absolute:{}", d.kind);
    let mut family = d.kind.to_string();
    if d.kind == "refused" {
        // the refusal must not depend on options that drop unknown content
        family = format!("refused {}", d.detail);
    }
    match kind {
        9 | 10 => {
            w.p.cmd_mut().allow_bigger = false;
            w.p.cmd_mut().multipass = false;
            note = "bigger".into();
            family = "bigger".into();
        }
        11 if w.in_path.is_some() => {
            let p = w.in_path.clone().unwrap();
            w.files.retain(|f| !matches!(f, FileSpec::File { path, .. } if *path == p));
            note = "absolute:missing".into();
            family = "input missing".into();
        }
        12 if w.in_path.is_some() => {
            let p = w.in_path.clone().unwrap();
            for f in &mut w.files {
                if let FileSpec::File { path, mode, uid, .. } = f {
                    if *path == p {
                        *mode = 0o200;
                        *uid = 77;
                    }
                }
            }
            note = "absolute:unreadable".into();
            family = "input unreadable".into();
        }
        13 if w.in_path.is_some() => {
            let p = w.in_path.clone().unwrap();
            w.files.retain(|f| !matches!(f, FileSpec::File { path, .. } if *path == p));
            w.files.push(FileSpec::Dir { path: p, mode: 0o755 });
            note = "absolute:missing".into();
            family = "input is a directory".into();
        }
        14 => {
            let (i, o) = (w.in_path.clone().unwrap_or("/w/in.svg".into()), w.out_path.clone().unwrap_or("/w/out.svg".into()));
            let (a, k) = docs::bad_args(r, &i, &o);
            w.p.cmd_mut().raw = Some(a);
            note = "absolute:args".into();
            family = format!("arguments {}", k);
        }
        15..=19 => {
            note = "valid".into();
            family = "disturbed".into();
        }
        _ => {}
    }
    let mut s = one("C02", &family, w);
    s.note = note;
    if matches!(kind, 15..=19) || kind < 11 && r.chance(25) {
        let b = baseline(ctx, &s);
        let tr = &b.groups[0].trace;
        let total = b.p0().nalloc;
        let inobj = s.proc0().cmd().input.clone();
        let inobj = place_path(s.proc0(), &inobj).unwrap_or("stdin".into());
        match r.below(6) {
            0 | 1 => s.proc0_mut().alloc = alloc_plan(r, total),
            2 => {
                if let Some(k) = pick_op(r, tr, |t| t.obj != "stderr") {
                    let at = at_of(tr, k);
                    let act = if r.chance(50) { Act::KillBefore } else { Act::KillAfter };
                    s.proc0_mut().faults.push(Fault { at, act, times: 1 });
                }
            }
            _ => {
                // the input cannot be opened, sized or read to its end
                if let Some(k) = pick_op(r, tr, |t| t.obj == inobj) {
                    let f = fault_at(r, tr, k, false);
                    s.proc0_mut().faults.push(f);
                }
            }
        }
    }
    if r.chance(15) {
        s.proc0_mut().frag = Some(frag_for(r, d.bytes.len()));
    }
    Some(s)
}

fn judge02(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    let kind = s.note.strip_prefix("absolute:");
    let want = match (&kind, &v.doc) {
        (Some(k), _) if *k != "valid" => Want::Refuse(k.to_string()),
        (_, Some(d)) => ctx.want(v.cmd(), d),
        _ => Want::Refuse("missing".into()),
    };
    if let Want::Broken(_) = want {
        return finish(Verdict::ok(false), &o);
    }
    let changes: Vec<String> = v.dest_changes().iter().map(|m| format!("{:?} of {} at step {}", m.what, m.path, m.step)).collect();
    let touched = !changes.is_empty() || !v.o.stdout.is_empty();
    let detail = || format!("destination changes [{}], standard output {:?}; {}", changes.join(", "), short(&v.o.stdout), v.what());
    let died = v.killed() || o.p0().alloc_fired > 0 && !matches!(v.o.exit, Exit::Code(_));
    if died {
        // before the result was complete?
        let early = if v.p.alloc.kill_at > 0 || v.p.alloc.fail_at > 0 {
            let b = baseline(ctx, s);
            let at = v.p.alloc.kill_at.max(v.p.alloc.fail_at);
            want.refused() || v.p.alloc.fail_min == 0 && at + 64 <= b.p0().nalloc
        } else {
            want.refused()
        };
        let first = v.dest_changes().first().map(|m| m.step);
        let unread = match (first, v.read_done()) {
            (Some(_), None) => v.doc.as_ref().map(|d| !d.is_empty()).unwrap_or(false),
            (Some(a), Some(b)) => a < b,
            _ => false,
        };
        if touched && (early || unread) {
            return fails(&o, "killed-touched", detail());
        }
        return finish(Verdict::ok(true), &o);
    }
    if want.refused() {
        if touched {
            return fails(&o, "refused-touched", format!("{:?}: {}", want, detail()));
        }
        if v.said.success || v.said.errors == 0 {
            return fails(&o, "refused-silently", format!("{:?}: no error reported or success claimed; {}", want, v.what()));
        }
        return finish(Verdict::ok(true), &o);
    }
    // a valid document: only an input failure may keep it from being delivered
    let hit_input = v.p.faults.iter().zip(&v.o.fired).any(|(_, n)| *n > 0);
    if v.said.errors > 0 || !v.normal() {
        if touched && hit_input {
            return fails(&o, "failed-touched", detail());
        }
        if v.said.success {
            return fails(&o, "failed-success", detail());
        }
        if hit_input {
            return finish(Verdict::ok(true), &o);
        }
    }
    finish(Verdict::ok(hit_input), &o)
}

// ------------------------------------------------------------------ C03
fn gen03(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let mut d = match r.below(12) {
        0..=4 => refused_doc(r),
        5..=7 => malformed_doc(r),
        8 | 9 => bigger_doc(r, ctx)?,
        10 => utf8_doc(r),
        _ => valid_doc(r),
    };
    let big = r.below(500) == 0;
    if big {
        d.bytes = huge(r, &d.bytes);
    }
    let chan = if r.chance(80) || big { (true, true) } else { channel(r) };
    let mut w = world(r, &d, chan);
    w.p.cmd_mut().copy_on_error = true;
    if big {
        w.p.frag = None;
        let mut s = one("C03", &format!("{}: many megabytes", d.kind), w);
        s.note = format!("{} {}", d.kind, d.detail);
        return Some(s);
    }
    if d.detail == "bigger" {
        w.p.cmd_mut().allow_bigger = false;
        w.p.cmd_mut().multipass = r.chance(20);
    }
    let mut family = format!("{} {}", d.kind, d.detail);
    if chan == (true, true) && r.chance(30) {
        family = format!("{} alias: {}", d.kind, make_alias(r, &mut w));
    } else if chan == (true, true) && r.chance(15) {
        // a destination that cannot be replaced
        let p = w.out_path.clone().unwrap();
        w.files.retain(|f| !matches!(f, FileSpec::File { path, .. } | FileSpec::Symlink { path, .. } if *path == p));
        match r.below(3) {
            0 => w.files.push(FileSpec::File { path: p, data: Blob(OLD.to_vec()), mode: 0o444, uid: 0, report_size: None }),
            1 => w.files.push(FileSpec::Dir { path: p, mode: 0o755 }),
            _ => {
                w.files.push(FileSpec::Dir { path: "/w/locked".into(), mode: 0o555 });
                w.p.cmd_mut().output = Place::File("locked/out.svg".into());
            }
        }
        family = format!("{} destination not writable", d.kind);
    }
    let mut s = one("C03", &family, w);
    s.note = format!("{} {}", d.kind, d.detail);
    if r.chance(55) {
        let b = baseline(ctx, &s);
        let tr = &b.groups[0].trace;
        let out = view(&s, &b, 0, 0).dest_name().unwrap_or_default();
        let inp = view(&s, &b, 0, 0).in_name().unwrap_or_default();
        let done = view(&s, &b, 0, 0).read_done().unwrap_or(u64::MAX);
        for _ in 0..1 + r.below(2) {
            if let Some(k) = pick_op(r, tr, |t| !out.is_empty() && t.obj == out || t.obj == inp && t.step > done) {
                let f = fault_at(r, tr, k, false);
                s.proc0_mut().faults.push(f);
            }
        }
        if r.chance(20) {
            s.capacity = Some(r.below(d.bytes.len() + 50) as u64);
        }
    }
    if r.chance(25) {
        s.proc0_mut().frag = Some(frag_for(r, d.bytes.len()));
    }
    Some(s)
}

fn judge03(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    let doc = match &v.doc {
        Some(d) => d.clone(),
        None => return finish(Verdict::ok(false), &o),
    };
    let want = ctx.want(v.cmd(), &doc);
    if !v.cmd().copy_on_error || matches!(want, Want::Broken(_)) || v.killed() {
        return finish(Verdict::ok(false), &o);
    }
    let post = v.dest_post();
    let errfault = v.trace.iter().any(|t| t.fault && t.ret < 0);
    let both = v.inp.is_some() && v.out.is_some();
    if let Want::Deliver(_) = want {
        // never a copy: the result, or a reported error
        if v.said.errors == 0 {
            let got = post.clone().unwrap_or_default();
            if !want.accepts(&got) {
                return fails(&o, "copied-success", format!("cleaning succeeds but the destination holds {}; {}", opt(&post), v.what()));
            }
        } else if both && !v.alias() && post.as_deref() == Some(&doc[..]) && v.dest_pre().as_deref() != Some(&doc[..]) && !doc.is_empty() && !want.accepts(&doc) {
            return fails(&o, "copied-save-failure", format!("the original was copied although cleaning succeeded; {}", v.what()));
        }
        return finish(Verdict::ok(true), &o);
    }
    if !both {
        // nothing is copied
        if !v.o.stdout.is_empty() || !v.dest_changes().is_empty() {
            return fails(&o, "copied-stream", format!("a refused document from or to a stream was written: stdout {:?}, destination {}; {}", short(&v.o.stdout), opt(&post), v.what()));
        }
        return finish(Verdict::ok(true), &o);
    }
    if v.alias() {
        if post.as_deref() != Some(&doc[..]) {
            return fails(&o, "alias-copy", format!("input and output are one file, which now holds {} instead of its {} bytes; {}", opt(&post), doc.len(), v.what()));
        }
        return finish(Verdict::ok(true), &o);
    }
    let load_error = matches!(&want, Want::Refuse(k) if k == "utf8") || v.read_failed() || v.read_done().is_none() && errfault;
    let copied = post.as_deref() == Some(&doc[..]);
    if load_error {
        if !copied && post != v.dest_pre() && v.said.errors < 2 {
            return fails(&o, "partial-copy", format!("destination {}; {}", opt(&post), v.what()));
        }
        return finish(Verdict::ok(true), &o);
    }
    if v.said.success {
        return fails(&o, "refused-success", v.what());
    }
    if v.said.errors == 0 && !v.panicked() {
        return fails(&o, "refused-silently", v.what());
    }
    if !copied && v.said.errors < 2 {
        return fails(&o, "not-copied", format!("refused ({:?}), but the destination holds {} instead of the original's {} bytes and no further error was reported; {}", want, opt(&post), doc.len(), v.what()));
    }
    if !copied && !errfault && s.capacity.is_none() && !s.family.contains("not writable") {
        return fails(&o, "not-copied-healthy", format!("nothing went wrong with the destination, but it holds {}; {}", opt(&post), v.what()));
    }
    finish(Verdict::ok(true), &o)
}

// ------------------------------------------------------------------ C04
/// A destination that can not be opened or written.
fn unwritable(r: &mut Rng, w: &mut World) {
    let p = w.out_path.clone().unwrap();
    w.files.retain(|f| !matches!(f, FileSpec::File { path, .. } | FileSpec::Symlink { path, .. } if *path == p));
    match r.below(7) {
        0 => w.files.push(FileSpec::Symlink { path: p, target: "/dev/full".into() }),
        1 => w.files.push(FileSpec::Dir { path: p, mode: 0o755 }),
        2 => w.files.push(FileSpec::File { path: p, data: Blob(OLD.to_vec()), mode: 0o444, uid: 0, report_size: None }),
        3 => w.p.cmd_mut().output = Place::File("no/such/dir/out.svg".into()),
        4 => {
            w.files.push(FileSpec::Dir { path: "/w/locked".into(), mode: 0o555 });
            w.p.cmd_mut().output = Place::File("locked/out.svg".into());
        }
        5 => w.p.cmd_mut().output = Place::File("missing/out.svg".into()),
        _ => w.files.push(FileSpec::Symlink { path: p, target: "/w/nowhere/x.svg".into() }),
    }
}

fn gen04(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let d = valid_doc(r);
    let chan = match r.below(8) { 0..=3 => (true, true), 4 | 5 => (true, false), 6 => (false, true), _ => (false, false) };
    let mut w = world(r, &d, chan);
    w.p.cmd_mut().allow_bigger = true;
    let mut family = if chan.1 { "file".to_string() } else { "stdout".to_string() };
    if chan.1 && r.chance(20) {
        unwritable(r, &mut w);
        family = "unwritable".into();
    }
    let mut s = one("C04", &family, w);
    let b = baseline(ctx, &s);
    let tr = &b.groups[0].trace;
    let vb = view(&s, &b, 0, 0);
    let obj = vb.dest_name().unwrap_or("stdout".into());
    let len = vb.dest_post().map(|b| b.len()).unwrap_or(0);
    match r.below(10) {
        0 => {}
        1 | 2 if chan.1 => s.capacity = Some(r.below(len + 3) as u64),
        1..=3 => {
            let e = *r.pick(if chan.1 { &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG][..] } else { &[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN][..] });
            let at = At { op: "write".into(), obj: obj.clone(), nth: 0 };
            let n = if r.chance(30) { len.saturating_sub(r.below(4)) } else { r.below(len + 1) };
            s.proc0_mut().faults.push(Fault { at, act: Act::FailFrom(n as u64, e), times: 1_000_000 });
        }
        _ => {
            for _ in 0..1 + r.below(3) {
                if let Some(k) = pick_op(r, tr, |t| t.obj == obj) {
                    let f = fault_at(r, tr, k, false);
                    s.proc0_mut().faults.push(f);
                }
            }
        }
    }
    if r.chance(25) {
        s.proc0_mut().frag = Some(frag_for(r, d.bytes.len()));
    }
    Some(s)
}

fn judge04(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    let doc = match &v.doc {
        Some(d) => d.clone(),
        None => return finish(Verdict::ok(false), &o),
    };
    let want = ctx.want(v.cmd(), &doc);
    if matches!(want, Want::Broken(_)) || v.killed() {
        return finish(Verdict::ok(false), &o);
    }
    if v.panicked() || !matches!(v.o.exit, Exit::Code(_)) {
        return fails(&o, "panic", format!("the run did not end in an orderly way; {}", v.what()));
    }
    if v.said.errors > 0 {
        if v.said.success {
            return fails(&o, "error-and-success", v.what());
        }
        return finish(Verdict::ok(o.fired() > 0 || s.capacity.is_some()), &o);
    }
    let got = v.dest_post();
    let full = got.as_ref().map(|b| want.accepts(b)).unwrap_or(false);
    if !full {
        // a device swallows what it is given
        let class = match &want {
            Want::Deliver(_) => "undelivered",
            _ => "not-refused",
        };
        return fails(&o, class, format!("no error reported, but the destination holds {} instead of {}; {}", opt(&got),
            match &want { Want::Deliver(a) => format!("the complete result of {} bytes", a[0].len()), w => format!("nothing ({:?})", w) }, v.what()));
    }
    if let Some(p) = xmlcheck::problem(&got.unwrap()) {
        return fails(&o, "ill-formed", format!("the delivered document is not well-formed: {}; {}", p, v.what()));
    }
    finish(Verdict::ok(o.fired() > 0), &o)
}

// ------------------------------------------------------------------ C05
fn gen05(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let d = if r.chance(10) { bigger_doc(r, ctx)? } else { any_doc(r, 25) };
    let chan = channel(r);
    let mut w = world(r, &d, chan);
    w.p.frag = Some(frag_for(r, d.bytes.len()));
    w.p.env.no_statx = r.chance(30);
    w.p.env.no_cfr = r.chance(40);
    if chan.0 && r.chance(35) {
        let n = d.bytes.len() as u64;
        let lie = *r.pick(&[0, 0, 1, n / 2, n.saturating_sub(1), n + 1, 2 * n + 4096, 20_000_000]);
        let p = w.in_path.clone().unwrap();
        for f in &mut w.files {
            if let FileSpec::File { path, report_size, .. } = f {
                if *path == p {
                    *report_size = Some(lie);
                }
            }
        }
    }
    let mut s = one("C05", if chan.0 { "file" } else { "stdin" }, w);
    if r.chance(40) {
        let b = baseline(ctx, &s);
        let tr = &b.groups[0].trace;
        for _ in 0..1 + r.below(4) {
            if let Some(k) = pick_op(r, tr, |t| matches!(t.op, "read" | "write" | "copyrange" | "open")) {
                let at = at_of(tr, k);
                let act = match r.below(4) {
                    0 if tr[k].op != "copyrange" => Act::Errno(libc::EINTR),
                    1 => Act::Delay(1 + r.next() % 5_000_000_000),
                    _ if tr[k].op != "open" => Act::Short(1 + r.below(tr[k].ret.max(1) as usize) as u32),
                    _ => Act::Errno(libc::EINTR),
                };
                let times = if matches!(act, Act::Errno(_)) { 1 + r.below(5) as u32 } else { 1 };
                s.proc0_mut().faults.push(Fault { at, act, times });
            }
        }
    }
    Some(s)
}

fn judge05(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let mut c = calm(s);
    {
        let e = &mut c.proc0_mut().env;
        e.no_statx = false;
        e.no_cfr = false;
    }
    for f in &mut c.files {
        if let FileSpec::File { report_size, .. } = f {
            *report_size = None;
        }
    }
    let a = ctx.quietly(|x| x.run(&c));
    let o = ctx.run(s);
    let (va, vo) = (view(&c, &a, 0, 0), view(s, &o, 0, 0));
    if va.panicked() || !matches!(va.o.exit, Exit::Code(_)) {
        return finish(Verdict::ok(false), &o);
    }
    if let Some((k, m)) = seen(&vo).diff(&seen(&va)) {
        return fails(&o, &k, format!("fragmented transfers changed the outcome: {}; {}", m, vo.what()));
    }
    finish(Verdict::ok(o.p0().frag_hits > 0 || o.fired() > 0), &o)
}

// ------------------------------------------------------------------ C06
/// Option values on both sides of every switch.
fn option_focus(r: &mut Rng) -> Doc {
    let d = r.pick(crate::optdocs::OPTDOCS);
    let name = d.0;
    let v: String = match name {
        "indent" => r.pick(&["0", "1", "2", "3", "4", "tabs", "none"]).to_string(),
        "list-separator" => r.pick(&["space", "comma", "comma-space"]).to_string(),
        "join-style-attributes" => r.pick(&["no", "some", "all"]).to_string(),
        n if n.ends_with("-precision") => format!("{}", r.range(1, 12)),
        _ => r.pick(&["yes", "no"]).to_string(),
    };
    let mut flags = vec![];
    if r.chance(45) {
        flags.push("--no-defaults".to_string());
    }
    let nd = !flags.is_empty();
    if r.chance(80) {
        // options that depend on others
        if name == "paths-to-relative" && v == "no" && !nd {
            flags.push("--remove-unused-segments=no".into());
            flags.push("--convert-segments=no".into());
        }
        if v == "yes" && nd && ["remove-unused-segments", "convert-segments", "apply-transform-to-paths"].contains(&name) {
            flags.push("--paths-to-relative=yes".into());
        }
        if v == "yes" && nd && name == "join-arcto-flags" {
            flags.push("--trim-paths=yes".into());
        }
        flags.push(format!("--{}={}", name, v));
    }
    let mut bytes = d.1.as_bytes().to_vec();
    if r.chance(30) {
        // a second document's content inside
        let e = r.pick(crate::optdocs::OPTDOCS).1;
        if let (Some(a), Some(b)) = (e.find("<svg"), e.rfind("</svg>")) {
            if let Some(g) = e[a..].find('>') {
                let inner = &e[a + g + 1..b];
                bytes = docs::insert_child(d.1, inner, true).into_bytes();
            }
        }
    }
    Doc { bytes, kind: "valid", detail: format!("option {}={}", name, v), flags }
}

fn gen06(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let mut d = match r.below(20) {
        0..=9 => option_focus(r),
        10 | 11 => bigger_doc(r, ctx)?,
        12 | 13 => any_doc(r, 100),
        14 | 15 => {
            let mut d = bigger_doc(r, ctx)?;
            d.bytes = dress(r, d.bytes, 100);
            d
        }
        _ => valid_doc(r),
    };
    let mut base = Cmd::new(Place::Std, Place::Std);
    base.flags = d.flags.clone();
    tune(r, &mut base);
    base.copy_on_error = false;
    if r.chance(20) {
        // around the limit of the size guard
        base.allow_bigger = false;
        if let Want::Deliver(a) = ctx.want(&Cmd { newline: false, allow_bigger: true, ..base.clone() }, &d.bytes) {
            let need = a[0].len() as i64 - d.bytes.len() as i64 - *r.pick(&[-3i64, -2, -1, 0, 0, 1, 2, 3]);
            if need >= 0 {
                d.bytes = pad(&d.bytes, need as usize);
            }
        }
    }
    let mut files = bystanders();
    files.push(FileSpec::file("/w/in.svg", &d.bytes));
    let mut steps = Vec::new();
    let mut order = vec![0, 1, 2, 3];
    for i in 0..4 {
        let j = r.below(4);
        order.swap(i, j);
    }
    for k in order {
        let mut c = base.clone();
        c.spelling = r.below(32) as u32;
        c.input = if k & 1 == 0 { Place::File("in.svg".into()) } else { Place::Std };
        c.output = if k & 2 == 0 { Place::File(format!("out{}.svg", k)) } else { Place::Std };
        let mut p = Proc::cli(c);
        if k & 1 == 1 {
            p.stdin = InSpec::Bytes { data: Blob(d.bytes.clone()) };
        }
        p.stdout = OutSpec::Sink { kind: r.pick(&["pipe", "file", "tty"]).to_string() };
        p.stderr = OutSpec::Sink { kind: r.pick(&["pipe", "file", "tty"]).to_string() };
        if r.chance(25) {
            p.frag = Some(frag_for(r, d.bytes.len()));
        }
        steps.push(Step::Run { procs: vec![p], switches: vec![], pipes: vec![] });
    }
    let mut s = Scenario::one("C06", &d.kind.to_string(), 0, files, Proc::cli(base));
    s.steps = steps;
    s.note = d.detail.clone();
    Some(s)
}

fn judge06(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let mut nontrivial = false;
    let mut said: Option<(Vec<u8>, String)> = None;
    for g in 0..o.groups.len() {
        let v = view(s, &o, g, 0);
        let doc = match &v.doc {
            Some(d) => d.clone(),
            None => continue,
        };
        let want = ctx.want(v.cmd(), &doc);
        if !matches!(want, Want::Broken(_)) {
            match &said {
                None => said = Some((v.o.stderr.clone(), v.what())),
                Some((m, w)) if *m != v.o.stderr => return fails(&o, "messages", format!("different messages for the same document: {}; {}", v.what(), w)),
                _ => {}
            }
        }
        let chan = format!("{}->{}", if v.inp.is_some() { "file" } else { "stdin" }, if v.out.is_some() { "file" } else { "stdout" });
        match &want {
            Want::Broken(_) => continue,
            Want::Refuse(k) => {
                if v.said.errors == 0 || !v.o.stdout.is_empty() || v.out.is_some() && v.dest_post() != v.dest_pre() {
                    return fails(&o, "not-refused", format!("the library refuses the document ({}), but {}: stdout {:?}; {}", k, chan, short(&v.o.stdout), v.what()));
                }
                nontrivial = true;
            }
            Want::Deliver(a) => {
                let got = v.dest_post().unwrap_or_default();
                if !want.accepts(&got) {
                    return fails(&o, "differs", format!("{} delivered {:?}, the library gives {:?}; {}", chan, short(&got), short(&a[0]), v.what()));
                }
                if v.out.is_some() && !v.o.stdout.is_empty() {
                    return fails(&o, "stdout-noise", format!("{} also wrote {:?} to standard output; {}", chan, short(&v.o.stdout), v.what()));
                }
                if a[0].len() > 24 && contains(&v.o.stderr, &a[0]) {
                    return fails(&o, "stderr-document", format!("{} wrote the document to standard error; {}", chan, v.what()));
                }
                if v.said.errors > 0 || v.panicked() {
                    return fails(&o, "false-error", format!("{} delivered the result but reported an error; {}", chan, v.what()));
                }
                nontrivial = true;
            }
        }
    }
    finish(Verdict::ok(nontrivial), &o)
}
fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

// ------------------------------------------------------------------ C07
fn gen07(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let fam = r.below(10);
    if fam < 6 {
        // around the boundary
        let mut d = match fam {
            0..=2 => bigger_doc(r, ctx)?,
            _ => {
                let size = if r.chance(70) { Size::Small } else { Size::Medium };
                let t = docs::valid(r, size, false, true);
                // characters of several bytes that stay in the result
                let extra = format!("<text x=\"1\">{}</text>", ["\u{20ac}\u{20ac} na\u{ef}ve \u{1f600}", "\u{416}\u{416}\u{416}\u{416}\u{416}\u{416}", "plain"][r.below(3)].repeat(1 + r.below(6)));
                let t = docs::insert_child(&t, &extra, true);
                let c = match ctx.clean(t.as_bytes(), &[]) {
                    Res::Ok(b) => b,
                    _ => return None,
                };
                let flags = if r.chance(40) { vec![] } else { vec!["--no-defaults".to_string(), "--indent=1".into()] };
                Doc { bytes: c, kind: "valid", detail: "dense".into(), flags }
            }
        };
        let multipass = r.chance(35);
        let mut c = Cmd::new(Place::Std, Place::Std);
        c.flags = d.flags.clone();
        c.multipass = multipass;
        let res = match ctx.want(&c, &d.bytes) {
            Want::Deliver(a) => a[0].len() as i64,
            _ => return None,
        };
        // pad such that the result is k bytes longer than the original
        let k = *r.pick(&[-1i64, 0, 0, 1, 1, 2, 5]);
        let need = res - d.bytes.len() as i64 - k;
        if need >= 0 {
            d.bytes = pad(&d.bytes, need as usize);
        }
        let chan = channel(r);
        let mut w = world(r, &d, chan);
        let c = w.p.cmd_mut();
        c.multipass = multipass;
        c.allow_bigger = r.chance(10);
        c.newline = r.chance(40);
        c.copy_on_error = r.chance(15);
        let mut s = one("C07", "boundary", w);
        s.note = format!("result minus original {}", k);
        if r.chance(20) {
            s.proc0_mut().frag = Some(frag_for(r, d.bytes.len()));
        }
        return Some(s);
    }
    // the file changes its size while it is read
    let d = if r.chance(50) { bigger_doc(r, ctx)? } else { valid_doc(r) };
    let ch = (true, r.chance(75));
    let mut w = world(r, &d, ch);
    let c = w.p.cmd_mut();
    c.allow_bigger = r.chance(10);
    c.copy_on_error = false;
    let inp = w.in_path.clone().unwrap();
    w.p.frag = Some(Frag { seed: r.next(), rmax: (d.bytes.len() as u32 / 4).max(1), wmax: 0, eintr: 0, lat: 0 });
    let mut s = one("C07", "racing", w);
    let b = baseline(ctx, &s);
    let tr = b.groups[0].trace.clone();
    for _ in 0..1 + r.below(2) {
        let k = pick_op(r, &tr, |t| t.obj == inp || t.op == "open")?;
        let n = d.bytes.len();
        let act = match r.below(4) {
            0 => DiskAct::Append { path: inp.clone(), data: Blob(vec![b' '; 1 + r.below(2000)]) },
            1 => DiskAct::Truncate { path: inp.clone(), len: r.below(n) as u64 },
            2 => DiskAct::Truncate { path: inp.clone(), len: 0 },
            _ => DiskAct::Append { path: inp.clone(), data: "<!-- appended -->\n".into() },
        };
        let at = at_of(&tr, k);
        s.proc0_mut().faults.push(Fault { at, act: Act::Event(vec![act]), times: 1 });
    }
    Some(s)
}

/// The bytes a run really got from its input, if it read it in one go.
fn bytes_read(v: &View) -> Option<Vec<u8>> {
    match &v.inp {
        None => v.o.read_from.get("stdin").cloned().or(Some(vec![])),
        Some(_) => {
            let n = v.in_name().unwrap();
            let opens = v.trace.iter().filter(|t| t.proc == v.idx && t.op == "open" && t.obj == n && t.ret >= 0).count();
            if opens != 1 {
                return None;
            }
            v.o.read_from.get(&n).cloned().or(Some(vec![]))
        }
    }
}

fn judge07(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    let read = match bytes_read(&v) {
        // a refused run copying reads the file twice; the events make that ambiguous
        Some(b) => b,
        None if v.p.faults.is_empty() => v.doc.clone().unwrap_or_default(),
        None => return finish(Verdict::ok(false), &o),
    };
    let want = ctx.want(v.cmd(), &read);
    if matches!(want, Want::Broken(_)) || !v.normal() {
        return finish(Verdict::ok(false), &o);
    }
    let got = v.dest_post();
    if v.said.errors == 0 {
        let len = got.as_ref().map(|b| b.len()).unwrap_or(0);
        if !v.cmd().allow_bigger && len > read.len() + v.cmd().newline as usize {
            return fails(&o, "bigger", format!("read {} bytes, delivered {}; {}", read.len(), len, v.what()));
        }
        if !got.as_ref().map(|b| want.accepts(b)).unwrap_or(false) {
            return fails(&o, "delivered-wrong", format!("read {} bytes; expected {}; delivered {}; {}", read.len(), describe(&want), opt(&got), v.what()));
        }
    } else {
        if let Want::Deliver(a) = &want {
            return fails(&o, "refused-wrongly", format!("read {} bytes, the result has {} bytes and fits, but it was not delivered; {}", read.len(), a[0].len(), v.what()));
        }
        if !v.cmd().copy_on_error && (!v.dest_changes().is_empty() || !v.o.stdout.is_empty()) {
            return fails(&o, "refused-delivered", v.what());
        }
    }
    finish(Verdict::ok(true), &o)
}
fn describe(w: &Want) -> String {
    match w {
        Want::Deliver(a) => format!("{:?}", short(&a[0])),
        w => format!("{:?}", w),
    }
}

// ------------------------------------------------------------------ C08
fn gen08(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let mut best: Option<(usize, Doc)> = None;
    // prefer documents that take several passes
    for _ in 0..3 {
        let mut d = match r.below(12) {
            8..=11 => {
                let (b, flags, k) = docs::layers(r);
                Doc { bytes: b.into_bytes(), kind: "valid", detail: k.into(), flags }
            }
            0 => bigger_doc(r, ctx).unwrap_or_else(|| valid_doc(r)),
            1 => any_doc(r, 60),
            2 | 3 => option_focus(r),
            4 => Doc { bytes: docs::multi(r).into_bytes(), kind: "valid", detail: "text".into(), flags: docs::options(r) },
            _ => {
                let mut d = valid_doc(r);
                d.bytes = docs::deepen(r, &d.bytes);
                d
            }
        };
        if d.detail != "rounding" && r.chance(50) {
            d.flags.clear();
        }
        if d.bytes.len() > 60_000 {
            continue;
        }
        let n = ctx.chain(&d.bytes, &d.flags).0.len();
        if best.as_ref().map(|b| n > b.0).unwrap_or(true) {
            best = Some((n, d));
        }
    }
    let d = best?.1;
    let ch = channel(r);
    let mut w = world(r, &d, ch);
    w.p.cmd_mut().multipass = true;
    w.p.cmd_mut().copy_on_error = r.chance(15);
    if r.chance(25) {
        w.p.frag = Some(frag_for(r, d.bytes.len()));
    }
    let mut s = one("C08", d.kind, w);
    s.note = d.detail.clone();
    Some(s)
}

fn judge08(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    let doc = match &v.doc {
        Some(d) => d.clone(),
        None => return finish(Verdict::ok(false), &o),
    };
    let (passes, w0) = ctx.chain(&doc, &v.cmd().flags);
    ctx.probe(&format!("chain of {} passes", passes.len().min(9)));
    if matches!(v.o.exit, Exit::Hang(_) | Exit::Blocked(_)) {
        return fails(&o, "endless", format!("the run does not end (single passes give sizes {:?}); {}", passes.iter().map(|p| p.len()).collect::<Vec<_>>(), v.what()));
    }
    if matches!(w0, Want::Broken(_)) || !v.cmd().multipass {
        return finish(Verdict::ok(false), &o);
    }
    let want = ctx.want(v.cmd(), &doc);
    let sizes: Vec<usize> = passes.iter().map(|p| p.len()).collect();
    let got = v.dest_post();
    match &want {
        Want::Refuse(k) => {
            let touched = !v.o.stdout.is_empty() || !v.cmd().copy_on_error && !v.dest_changes().is_empty();
            if touched || v.said.errors == 0 {
                return fails(&o, "pass-refused", format!("pass {} is refused ({}), but the run delivered {}; {}", sizes.len() + 1, k, opt(&got), v.what()));
            }
        }
        Want::Deliver(alts) => {
            // of equally long ones the last
            if v.said.errors > 0 || v.panicked() || got.as_ref() != Some(&alts[0]) {
                return fails(&o, "differs", format!("single passes give sizes {:?}; delivered {}, expected {}; {}", sizes, opt(&got), describe(&want), v.what()));
            }
            let n = got.unwrap().len();
            if n > passes[0].len() + v.cmd().newline as usize {
                return fails(&o, "worse-than-single", format!("{} bytes, a single pass gives {}; {}", n, passes[0].len(), v.what()));
            }
        }
        Want::Broken(_) => {}
    }
    finish(Verdict::ok(passes.len() > 1), &o)
}

// ------------------------------------------------------------------ C09
fn rand_env(r: &mut Rng) -> Env {
    let mut e = Env::plain();
    e.hash_seed = r.next();
    e.alloc_seed = r.next();
    e.pid = 2 + r.below(4_000_000) as u64;
    e.uid = *r.pick(&[0, 1000, 4711]);
    e.clock = *r.pick(&[0u64, 1, 951_782_400_000_000_000, 1_700_000_000_000_000_000, 4_102_444_800_000_000_000, 2_147_483_647_999_999_999]) + r.next() % 1_000_000_000_000;
    e.jitter = r.chance(60);
    e.answer_env = r.chance(40);
    e.no_statx = r.chance(15);
    e.no_cfr = r.chance(15);
    for (k, vs) in [
        ("TZ", &["UTC", "Asia/Kolkata", "America/St_Johns"][..]), ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8"]), ("LC_ALL", &["C", "fr_FR", "ar_EG.UTF-8"]),
        ("LC_NUMERIC", &["de_DE.UTF-8"]), ("HOME", &["/root", "/nonexistent", ""]), ("TERM", &["dumb", "xterm-256color"]), ("COLUMNS", &["1", "20", "500"]),
        ("NO_COLOR", &["1"]), ("CLICOLOR_FORCE", &["1"]), ("TMPDIR", &["/tmp", "/nonexistent"]), ("SVGCLEANER_OPTS", &["--quiet"]), ("PATH", &["", "/bin"]),
    ] {
        if r.chance(30) {
            e.vars.push((k.into(), r.pick(vs).to_string()));
        }
    }
    e
}

fn gen09(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let d = if r.chance(10) { bigger_doc(r, ctx)? } else { any_doc(r, 30) };
    let chan = channel(r);
    let mut c = Cmd::new(Place::Std, Place::Std);
    c.flags = d.flags.clone();
    tune(r, &mut c);
    let mut files = bystanders();
    let mut steps = Vec::new();
    for side in 0..2 {
        let cwd = *r.pick(&["/w", "/", "/home/a/very/long/directory/name/for/pictures", "/a", "/b\u{fc}cher"]);
        let dir = format!("{}/s{}", if cwd == "/" { "" } else { cwd }, side);
        // the user owns the files: copying sets the permissions of the copy
        let env = rand_env(r);
        files.push(FileSpec::Dir { path: dir.clone(), mode: 0o777 });
        let name = *r.pick(&["in.svg", "x.svg", "a-much-longer-name-than-the-other-one.svg", "\u{20ac}.SVG", "1.svg", "test.svg", "error.svg"]);
        let oname = *r.pick(&["out.svg", "o.svg", "another_rather_long_name_of_a_result.svg", "b.SVG"]);
        let mut k = c.clone();
        k.spelling = r.below(32) as u32;
        let full = r.chance(30);
        let nm = |n: &str| if full { format!("{}/{}", dir, n) } else { format!("s{}/{}", side, n) };
        if chan.0 {
            files.push(FileSpec::File { path: format!("{}/{}", dir, name), data: Blob(d.bytes.clone()), mode: 0o666, uid: env.uid, report_size: None });
            k.input = Place::File(nm(name));
        }
        if chan.1 {
            if r.chance(60) {
                let data = Blob(old_content(r, d.bytes.len()));
                files.push(FileSpec::File { path: format!("{}/{}", dir, oname), data, mode: 0o666, uid: env.uid, report_size: None });
            }
            k.output = Place::File(nm(oname));
        }
        let mut p = Proc::cli(k);
        p.env = env;
        p.env.cwd = cwd.to_string();
        if !chan.0 {
            p.stdin = InSpec::Bytes { data: Blob(d.bytes.clone()) };
        }
        p.stdout = OutSpec::Sink { kind: r.pick(&["pipe", "file", "tty"]).to_string() };
        p.stderr = OutSpec::Sink { kind: r.pick(&["pipe", "file", "tty"]).to_string() };
        if r.chance(30) {
            p.frag = Some(Frag { seed: r.next(), rmax: 0, wmax: 0, eintr: 0, lat: 1 + r.next() % 2_000_000_000 });
        }
        steps.push(Step::Run { procs: vec![p], switches: vec![], pipes: vec![] });
    }
    let mut s = Scenario::one("C09", d.kind, 0, files, Proc::cli(c));
    s.steps = steps;
    Some(s)
}

fn judge09(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    if o.groups.len() < 2 {
        return finish(Verdict::ok(false), &o);
    }
    let (a, b) = (view(s, &o, 0, 0), view(s, &o, 1, 0));
    if a.doc != b.doc || !a.normal() && !b.normal() {
        return finish(Verdict::ok(false), &o);
    }
    let (mut x, mut y) = (seen(&a), seen(&b));
    // a refused run leaves its own earlier content
    if x.dest == a.dest_pre() && y.dest == b.dest_pre() && a.said.errors > 0 && b.said.errors > 0 {
        x.dest = None;
        y.dest = None;
    }
    if let Some((k, m)) = x.diff(&y) {
        return fails(&o, &k, format!("the same document and options gave different outcomes in two environments: {}; {}", m, a.what()));
    }
    // whatever other files the program looked for in vain now exist
    let names = looked_for(&a);
    if !names.is_empty() {
        ctx.probe("names looked for in vain");
        let other = b"<svg xmlns=\"http://www.w3.org/2000/svg\"><path d=\"M 1 2 L 3 4\"/></svg>\n";
        for data in [&other[..], b"yes\n", b""] {
            let mut t = s.clone();
            t.steps.truncate(1);
            present(&mut t.files, &names, data, a.p.env.uid);
            let o2 = ctx.run(&t);
            let c = view(&t, &o2, 0, 0);
            let (x, z) = (seen(&a), seen(&c));
            if let Some((_, m)) = x.diff(&z) {
                return fails(&o2, "other-files", format!("the outcome depends on other files ({}): {}; {}", names.join(", "), m, c.what()));
            }
        }
    }
    finish(Verdict::ok(true), &o)
}
/// Names a run asked for that do not exist and are not on its command line.
fn looked_for(v: &View) -> Vec<String> {
    let mine: Vec<Option<String>> = vec![v.inp.clone(), v.in_name(), v.out.clone(), v.dest_name(), v.out.as_ref().and_then(|p| dangling(v.pre, p))];
    let mut names: Vec<String> = Vec::new();
    for t in v.trace {
        if t.proc == v.idx && t.err == ENOENT && !t.fault && t.obj.starts_with('/') && !mine.iter().flatten().any(|m| *m == t.obj || m.starts_with(&format!("{}/", t.obj))) && !names.contains(&t.obj) && names.len() < 20 {
            names.push(t.obj.clone());
        }
    }
    names
}
/// Puts files there, with the directories they need.
fn present(files: &mut Vec<FileSpec>, names: &[String], data: &[u8], uid: u32) {
    for n in names {
        let parts: Vec<&str> = n.split('/').collect();
        for k in 2..parts.len() {
            let d = parts[..k].join("/");
            if !files.iter().any(|f| matches!(f, FileSpec::Dir { path, .. } if *path == d)) {
                files.push(FileSpec::Dir { path: d, mode: 0o777 });
            }
        }
        files.push(FileSpec::File { path: n.clone(), data: Blob(data.to_vec()), mode: 0o666, uid, report_size: None });
    }
}

// ------------------------------------------------------------------ C10
#[derive(Clone, Debug)]
pub struct Job {
    pub thread: usize,
    pub flags: Vec<String>,
    pub doc: Vec<u8>,
}
pub fn script(jobs: &[Job]) -> Vec<u8> {
    let mut v = Vec::new();
    for j in jobs {
        v.extend_from_slice(format!("{} {} {}\n", j.thread, j.doc.len(), j.flags.join(" ")).as_bytes());
        v.extend_from_slice(&j.doc);
        v.push(b'\n');
    }
    v
}
pub fn parse_script(mut s: &[u8]) -> Option<Vec<Job>> {
    let mut jobs = Vec::new();
    while !s.is_empty() {
        let nl = s.iter().position(|c| *c == b'\n')?;
        let head = std::str::from_utf8(&s[..nl]).ok()?;
        let mut w = head.split(' ');
        let thread = w.next()?.parse().ok()?;
        let len: usize = w.next()?.parse().ok()?;
        let flags = w.filter(|f| !f.is_empty()).map(|f| f.to_string()).collect();
        s = s.get(nl + 1..)?;
        jobs.push(Job { thread, flags, doc: s.get(..len)?.to_vec() });
        s = s.get(len + 1..)?;
    }
    Some(jobs)
}

/// Many small documents, one after the other in one process.
fn batch10(r: &mut Rng) -> Scenario {
    let n = BATCH10 + r.below(50);
    let mut jobs: Vec<Job> = Vec::new();
    let keep_names = r.chance(40);
    let common = if r.chance(30) { Some(docs::options(r)) } else { None };
    if r.chance(35) {
        // a few documents again and again, with other options
        let pool: Vec<Vec<u8>> = (0..1 + r.below(4)).map(|_| if r.chance(60) { valid_doc(r).bytes } else { docs::layers(r).0.into_bytes() }).filter(|d| d.len() < 8_000).collect();
        const SOME: &[&str] = &["--coordinates-precision", "--properties-precision", "--paths-coordinates-precision", "--transforms-precision", "--convert-segments", "--remove-unused-segments", "--trim-paths", "--join-arcto-flags", "--remove-dupl-cmd-in-paths", "--use-implicit-cmds", "--trim-colors", "--simplify-transforms", "--group-by-style", "--ungroup-groups", "--remove-default-attributes", "--convert-shapes", "--merge-gradients", "--regroup-gradient-stops", "--trim-ids", "--join-style-attributes"];
        let mut flags: Vec<String> = Vec::new();
        while !pool.is_empty() && jobs.len() < n {
            if r.chance(30) {
                flags = docs::options(r);
            }
            let k = *r.pick(SOME);
            flags.retain(|f| !f.starts_with(k));
            flags.push(if k.ends_with("-precision") { format!("{}={}", k, 1 + r.below(12)) } else { format!("{}={}", k, r.pick(&["yes", "no"])) });
            flags.retain(|f| !f.contains(' '));
            jobs.push(Job { thread: 0, flags: flags.clone(), doc: r.pick(&pool).clone() });
        }
    }
    while jobs.len() < n {
        let mut d = match r.below(10) {
            0 => option_focus(r),
            1 => any_doc(r, 100),
            2 => valid_doc(r),
            3 | 4 if !jobs.is_empty() => {
                // the same one or nearly so
                let j = r.pick(&jobs).clone();
                let bytes = if r.chance(60) { docs::sibling(r, &j.doc) } else { j.doc.clone() };
                Doc { bytes, kind: "sibling", detail: String::new(), flags: j.flags }
            }
            _ => {
                let (t, flags) = crate::families::with_options(r);
                Doc { bytes: t.into_bytes(), kind: "valid", detail: "family".into(), flags }
            }
        };
        if d.bytes.len() > 5_000 && !r.chance(5) || d.bytes.len() > 60_000 {
            continue;
        }
        if r.chance(20) {
            d.flags = docs::options(r);
        }
        if let (Some(c), true) = (&common, r.chance(80)) {
            d.flags = c.clone();
        }
        if keep_names {
            d.flags.retain(|f| !f.starts_with("--trim-ids"));
            d.flags.push("--trim-ids=no".into());
        }
        d.flags.retain(|f| !f.contains(' '));
        jobs.push(Job { thread: 0, flags: d.flags, doc: d.bytes });
    }
    let mut p = Proc::cli(Cmd::new(Place::Std, Place::Std));
    p.prog = Prog::Lib(vec!["script".into()]);
    p.stdin = InSpec::Bytes { data: Blob(script(&jobs)) };
    p.env.hash_seed = r.next();
    p.env.alloc_seed = r.next();
    Scenario::one("C10", "batch", 0, vec![], p)
}

fn gen10(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    if !ctx.has_lib {
        return None;
    }
    if r.chance(30) {
        return Some(batch10(r));
    }
    let threads = *r.pick(&[1usize, 2, 2, 3, 4]);
    let n = threads + r.below(5);
    let mut pool: Vec<Doc> = Vec::new();
    for _ in 0..1 + r.below(n) {
        let d = match r.below(6) {
            0 | 1 => option_focus(r),
            2 => any_doc(r, 100),
            3 => {
                let (t, flags) = crate::families::with_options(r);
                Doc { bytes: t.into_bytes(), kind: "valid", detail: "family".into(), flags }
            }
            _ => valid_doc(r),
        };
        if d.bytes.len() < 60_000 {
            pool.push(d);
        }
    }
    let mut focus: Option<(&str, Vec<String>)> = None;
    if r.chance(50) {
        // the same documents with one option varied
        pool.truncate(1 + r.below(2));
        if r.chance(50) {
            let d = docs::layers(r);
            pool.push(Doc { bytes: d.0.into_bytes(), kind: "valid", detail: d.2.into(), flags: vec![] });
        }
        let numeric = ["--coordinates-precision", "--properties-precision", "--paths-coordinates-precision", "--transforms-precision"];
let some = ["--remove-comments", "--remove-declarations", "--remove-nonsvg-elements", "--remove-unused-defs", "--convert-shapes", "--remove-title", "--remove-desc", "--remove-dupl-lineargradient", "--remove-dupl-radialgradient", "--ungroup-groups", "--ungroup-defs", "--group-by-style", "--merge-gradients", "--regroup-gradient-stops", "--remove-invisible-elements", "--resolve-use", "--remove-nonsvg-attributes", "--remove-unreferenced-ids", "--trim-ids", "--remove-text-attributes", "--remove-default-attributes", "--remove-needless-attributes", "--remove-gradient-attributes", "--join-style-attributes", "--apply-transform-to-gradients", "--apply-transform-to-shapes", "--remove-unused-segments", "--convert-segments", "--apply-transform-to-paths", "--trim-paths", "--join-arcto-flags", "--remove-dupl-cmd-in-paths", "--use-implicit-cmds", "--trim-colors", "--append-newline", "--simplify-transforms"];
        focus = Some(match r.below(4) {
            0 | 1 => (*r.pick(&numeric), (1..13).map(|k| k.to_string()).collect()),
            2 if r.chance(50) => ("--list-separator", ["space", "comma", "comma-space"].iter().map(|k| k.to_string()).collect()),
            2 => ("--indent", ["none", "0", "1", "2", "3", "4", "tabs"].iter().map(|k| k.to_string()).collect()),
            _ => (*r.pick(&some), vec!["yes".into(), "no".into()]),
        });
    }
    if pool.is_empty() {
        return None;
    }
    if r.chance(35) {
        // the same names mean something else in another document
        for _ in 0..1 + r.below(3) {
            let d = r.pick(&pool).clone();
            pool.push(Doc { bytes: docs::sibling(r, &d.bytes), kind: "sibling", ..d });
        }
    }
    // names that the cleaning would replace or drop stay visible
    let keep_names = r.chance(35);
    let mut jobs = Vec::new();
    for i in 0..n {
        let d = r.pick(&pool).clone();
        let mut flags = d.flags.clone();
        if r.chance(30) {
            flags = docs::options(r);
        }
        if keep_names {
            flags.retain(|f| !f.starts_with("--trim-ids"));
            flags.push("--trim-ids=no".into());
        }
        if let Some((k, vs)) = &focus {
            // one option differs between the cleanings
            flags.retain(|f| !f.starts_with(k));
            flags.push(format!("{}={}", k, r.pick(vs)));
        }
        flags.retain(|f| !f.contains(' '));
        jobs.push(Job { thread: if i < threads { i } else { r.below(threads) }, flags, doc: d.bytes });
    }
    let mut p = Proc::cli(Cmd::new(Place::Std, Place::Std));
    p.prog = Prog::Lib(vec!["script".into()]);
    p.stdin = InSpec::Bytes { data: Blob(script(&jobs)) };
    p.env.hash_seed = r.next();
    p.env.alloc_seed = r.next();
    let mut s = Scenario::one("C10", if threads == 1 { "history" } else { "threads" }, 0, vec![], p);
    if threads > 1 {
        // With nothing scheduled the first thread runs to its end, then the next one.
        let total = baseline(ctx, &s).p0().npoint.max(100);
        let mut v = Vec::new();
        if r.chance(40) {
            // a few switches anywhere
            let mut at: Vec<u64> = (0..1 + r.below(8)).map(|_| 1 + r.next() % total).collect();
            at.sort();
            v = at.iter().map(|a| (*a, r.below(threads) as u64)).collect();
        } else {
            // a stretch with switches at some rate, from every block to now and then
            let mut mean = total / 2 + 1;
            for _ in 0..r.below(20) {
                mean = mean / 2 + 1;
            }
            let mut at = if r.chance(30) { 1 } else { 1 + r.next() % total };
            while at < total * 2 && v.len() < 1200 {
                v.push((at, r.below(threads) as u64));
                at += 1 + r.next() % (2 * mean);
            }
        }
        s.proc0_mut().threads = v;
    }
    Some(s)
}

/// The results a host wrote, in order.
fn results10(mut b: &[u8], n: usize) -> Option<Vec<Res>> {
    let mut v = Vec::new();
    for _ in 0..n {
        let nl = b.iter().position(|c| *c == b'\n')?;
        let n: usize = std::str::from_utf8(&b[..nl]).ok()?.parse().ok()?;
        let got = b.get(nl + 1..nl + 1 + n)?;
        b = &b[nl + 1 + n..];
        v.push(match got.iter().position(|c| *c == b'\n') {
            Some(k) => match &got[..k] {
                b"OK" => Res::Ok(got[k + 1..].to_vec()),
                b"PANIC" => Res::Broken("panic".into()),
                b"UTF8" => Res::Refused("utf8".into()),
                h => Res::Refused(String::from_utf8_lossy(h).to_string()),
            },
            None => Res::Broken("no result".into()),
        });
    }
    Some(v)
}

const BATCH10: usize = 12;

fn judge10(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let data = match &s.proc0().stdin {
        InSpec::Bytes { data } => data.0.clone(),
        _ => return Verdict::ok(false),
    };
    let jobs = match parse_script(&data) {
        Some(j) if !j.is_empty() => j,
        _ => return Verdict::ok(false),
    };
    let show = |r: &Res| match r {
        Res::Ok(b) => format!("{:?}", short(b)),
        r => format!("{:?}", r),
    };
    let o = ctx.run(s);
    let po = o.p0();
    let threads = jobs.iter().map(|j| j.thread).max().unwrap_or(0);
    if jobs.len() >= BATCH10 && threads == 0 && po.exit == Exit::Code(0) {
        // Many cleanings: those of a second process, which does them in the opposite order, have to be the same.
        // Fresh processes decide where they are not.
        let got = match results10(&po.stdout, jobs.len()) {
            Some(g) => g,
            None => return fails(&o, "crash", "results missing".into()),
        };
        let back: Vec<Job> = jobs.iter().rev().cloned().collect();
        let mut s2 = s.clone();
        s2.proc0_mut().stdin = InSpec::Bytes { data: Blob(script(&back)) };
        let o2 = ctx.run(&s2);
        let mut got2 = match results10(&o2.p0().stdout, jobs.len()) {
            Some(g) if o2.p0().exit == Exit::Code(0) => g,
            _ => return fails(&o2, "crash", format!("{} cleanings that end well in one order ended with {:?} in the opposite order", jobs.len(), o2.p0().exit)),
        };
        got2.reverse();
        for (i, j) in jobs.iter().enumerate() {
            if got[i] == got2[i] {
                continue;
            }
            let w = ctx.clean(&j.doc, &j.flags);
            if matches!(w, Res::Broken(_)) {
                continue;
            }
            let (r, before) = if got[i] != w { (&got[i], i) } else { (&got2[i], jobs.len() - 1 - i) };
            return fails(&o, "influenced", format!("a cleaning after {} others (options {:?}) gave {}, in a fresh process {}", before, j.flags, show(r), show(&w)));
        }
        return finish(Verdict::ok(true), &o);
    }
    let want: Vec<Res> = jobs.iter().map(|j| ctx.clean(&j.doc, &j.flags)).collect();
    if po.exit != Exit::Code(0) {
        if want.iter().any(|w| matches!(w, Res::Broken(_))) {
            return finish(Verdict::ok(false), &o);
        }
        return fails(&o, "crash", format!("{} cleanings that all end well in fresh processes ended with {:?} in one process", jobs.len(), po.exit));
    }
    let got = match results10(&po.stdout, jobs.len()) {
        Some(g) => g,
        None => return fails(&o, "crash", "results missing".into()),
    };
    for (i, (j, w)) in jobs.iter().zip(&want).enumerate() {
        if matches!(w, Res::Broken(_)) {
            continue;
        }
        if got[i] != *w {
            return fails(&o, "influenced", format!("cleaning {} of {} (thread {}, options {:?}) gave {}, in a fresh process {}", i + 1, jobs.len(), j.thread, j.flags, show(&got[i]), show(w)));
        }
    }
    finish(Verdict::ok(jobs.len() > 1 && (threads == 0 || po.thread_switches > 0)), &o)
}

// ------------------------------------------------------------------ C11
fn gen11(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let mut d = match r.below(12) {
        0 | 1 => utf8_doc(r),
        2 => refused_doc(r),
        3 => {
            if r.chance(20) {
                Doc { bytes: docs::valid(r, Size::Huge, false, false).into_bytes(), kind: "valid", detail: "huge".into(), flags: vec![] }
            } else {
                Doc { bytes: docs::valid(r, Size::Large, false, true).into_bytes(), kind: "valid", detail: "large".into(), flags: vec![] }
            }
        }
        _ => valid_doc(r),
    };
    if d.kind == "valid" && r.chance(30) {
        // cutting it leaves something the parser may accept
        d.bytes = docs::insert_child(&String::from_utf8_lossy(&d.bytes), "<g><rect width=\"7\" height=\"8\"/><text>\u{20ac}nd</text></g>\n", true).into_bytes();
    }
    let big = r.below(400) == 0;
    if big {
        d.bytes = huge(r, &d.bytes);
    }
    let chan = match r.below(4) { 0 => (false, true), 1 => (false, false), 2 => (true, false), _ => (true, true) };
    let mut w = world(r, &d, chan);
    w.p.cmd_mut().copy_on_error = r.chance(10);
    if big {
        w.p.frag = None;
        let s = one("C11", &format!("{}: many megabytes", d.kind), w);
        return Some(s);
    }
    let n = d.bytes.len();
    let errs = [libc::EIO, libc::ESTALE, libc::ENOMEM, libc::EAGAIN, libc::ECONNRESET, libc::EBADMSG];
    let off = if r.chance(20) { n.saturating_sub(r.below(12)) } else { r.below(n + 1) };
    let mut family = String::from("complete");
    let mut fault = None;
    match r.below(10) {
        0..=4 => {
            family = "read error".into();
            if chan.0 {
                fault = Some(Fault { at: At { op: "read".into(), obj: w.in_path.clone().unwrap(), nth: 0 }, act: Act::FailFrom(off as u64, *r.pick(&errs)), times: 1_000_000 });
            } else {
                w.p.stdin = InSpec::Fails { data: Blob(d.bytes[..off].to_vec()), errno: *r.pick(&errs) };
            }
        }
        5..=7 if chan.0 => {
            family = "wrong size".into();
            let lie = *r.pick(&[0, 0, 1, n as u64 / 2, n as u64 - (n > 0) as u64, n as u64 + 1, n as u64 * 2 + 5000, 30_000_000]);
            let p = w.in_path.clone().unwrap();
            for f in &mut w.files {
                if let FileSpec::File { path, report_size, .. } = f {
                    if *path == p {
                        *report_size = Some(lie);
                    }
                }
            }
        }
        _ => {}
    }
    if r.chance(40) {
        w.p.frag = Some(frag_for(r, n));
    }
    let mut s = one("C11", &format!("{}: {}", d.kind, family), w);
    if let Some(f) = fault {
        s.proc0_mut().faults.push(f);
    } else if r.chance(30) {
        // a failing call somewhere on the input
        let b = baseline(ctx, &s);
        let tr = &b.groups[0].trace;
        let obj = view(&s, &b, 0, 0).in_name().unwrap_or("stdin".into());
        if let Some(k) = pick_op(r, tr, |t| t.obj == obj) {
            let f = fault_at(r, tr, k, false);
            s.proc0_mut().faults.push(f);
        }
    }
    Some(s)
}

fn judge11(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    let mut doc = match &v.doc {
        Some(d) => d.clone(),
        None => return finish(Verdict::ok(false), &o),
    };
    let failed_stdin = v.inp.is_none() && matches!(v.p.stdin, InSpec::Fails { .. });
    if failed_stdin {
        // whatever follows the failure is unknown: no document at all
        doc.push(0xff);
    }
    let want = ctx.want(v.cmd(), &doc);
    if matches!(want, Want::Broken(_)) || !matches!(v.o.exit, Exit::Code(_)) {
        return finish(Verdict::ok(false), &o);
    }
    let obj = v.in_name().unwrap_or("stdin".into());
    // Did the input fail before its end? (a failing size query does not hide content)
    let read_failed = failed_stdin
        || v.trace.iter().any(|t| t.obj == obj && t.op == "read" && t.ret < 0 && t.err != libc::EINTR && (v.read_done().is_none() || v.read_done().unwrap() > t.step));
    let got = v.dest_post();
    let copied = v.cmd().copy_on_error && v.out.is_some() && got == v.doc;
    let touched = !v.o.stdout.is_empty() || !v.dest_changes().is_empty();
    let utf8 = std::str::from_utf8(&doc).is_err();
    if read_failed || utf8 {
        let why = if read_failed { "reading the input failed" } else { "the input is not UTF-8" };
        if v.said.errors == 0 || v.said.success {
            return fails(&o, "partial-accepted", format!("{}, but no error was reported (destination {}); {}", why, opt(&got), v.what()));
        }
        if touched && !copied {
            return fails(&o, "partial-delivered", format!("{}, but {} was delivered; {}", why, opt(&got), v.what()));
        }
        return finish(Verdict::ok(true), &o);
    }
    if v.said.errors == 0 {
        if !got.as_ref().map(|b| want.accepts(b)).unwrap_or(false) {
            return fails(&o, "incomplete", format!("the input has {} bytes; expected {}, delivered {}; {}", doc.len(), describe(&want), opt(&got), v.what()));
        }
    } else if want.delivers() && o.fired() == 0 {
        return fails(&o, "rejected", format!("nothing failed, but the input of {} bytes was not cleaned; {}", doc.len(), v.what()));
    }
    let lied = s.files.iter().any(|f| matches!(f, FileSpec::File { report_size: Some(_), .. }));
    finish(Verdict::ok(lied || o.fired() > 0 || o.p0().frag_hits > 0 || doc.len() > 60_000), &o)
}

// ------------------------------------------------------------------ C12
fn gen12(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let d = if r.chance(10) { bigger_doc(r, ctx)? } else { any_doc(r, 25) };
    let ch = match r.below(6) { 0 => (true, false), 1 => (false, true), _ => (true, true) };
    let mut w = world(r, &d, ch);
    if r.chance(30) {
        w.p.cmd_mut().copy_on_error = true;
    }
    let last = w.p.clone();
    let s0 = one("C12", "single", World { files: w.files.clone(), p: last.clone(), out_path: None, in_path: None });
    let mut steps = Vec::new();
    let mut files = w.files.clone();
    let n = 1 + r.below(3);
    let mut family = String::new();
    for i in 0..n {
        let mut p = last.clone();
        if r.chance(35) && last.cmd().output != Place::Std {
            // an earlier run of something else into the same destination
            let e = any_doc(r, 20);
            let name = format!("/w/earlier{}.svg", i);
            files.push(FileSpec::file(&name, &e.bytes));
            p.cmd_mut().input = Place::File(name);
            p.cmd_mut().flags = e.flags.clone();
            p.cmd_mut().multipass = r.chance(20);
        }
        let mut t = s0.clone();
        t.files = files.clone();
        *t.proc0_mut() = p.clone();
        let b = baseline(ctx, &t);
        let tr = &b.groups[0].trace;
        let total = b.p0().nalloc;
        let mut cap = None;
        match r.below(8) {
            0 => p.alloc = alloc_plan(r, total),
            1 => cap = Some(r.below(d.bytes.len() + 20) as u64),
            2 => {}
            3..=5 => {
                if let Some(k) = pick_op(r, tr, |_| true) {
                    let at = at_of(tr, k);
                    let act = match r.below(3) {
                        0 => Act::KillBefore,
                        1 => Act::KillAfter,
                        _ if matches!(tr[k].op, "write" | "copyrange") => Act::KillMid(r.below(tr[k].ret.max(1) as usize) as u32),
                        _ => Act::KillAfter,
                    };
                    p.faults.push(Fault { at, act, times: 1 });
                }
            }
            _ => {
                for _ in 0..1 + r.below(2) {
                    if let Some(k) = pick_op(r, tr, |_| true) {
                        let f = fault_at(r, tr, k, true);
                        p.faults.push(f);
                    }
                }
            }
        }
        if cap.is_some() {
            steps.push(Step::Disk(DiskAct::Capacity { bytes: cap }));
        }
        steps.push(Step::Run { procs: vec![p], switches: vec![], pipes: vec![] });
        if cap.is_some() {
            steps.push(Step::Disk(DiskAct::Capacity { bytes: None }));
        }
        if r.chance(40) {
            steps.push(Step::PowerLoss { seed: r.next() });
            family = "power loss".into();
        }
    }
    if family.is_empty() {
        family = format!("{} earlier runs", n);
    }
    let mut fin = last;
    fin.env.clock += 60_000_000_000;
    steps.push(Step::Run { procs: vec![fin], switches: vec![], pipes: vec![] });
    let mut s = s0;
    s.family = family;
    s.files = files;
    s.steps = steps;
    Some(s)
}

fn judge12(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let last = match s.steps.last() {
        Some(Step::Run { procs, .. }) if procs.len() == 1 => procs[0].clone(),
        _ => return Verdict::ok(false),
    };
    if last != last.undisturbed() {
        return Verdict::ok(false);
    }
    let mut fresh = s.clone();
    fresh.capacity = None;
    fresh.steps = vec![s.steps.last().unwrap().clone()];
    let a = ctx.quietly(|c| c.run(&fresh));
    let o = ctx.run(s);
    let g = o.groups.len() - 1;
    let (va, vo) = (view(&fresh, &a, 0, 0), view(s, &o, g, 0));
    // the input has to be intact
    if va.doc != vo.doc || va.alias() || va.panicked() || !matches!(va.o.exit, Exit::Code(_)) {
        return finish(Verdict::ok(false), &o);
    }
    let (mut x, mut y) = (seen(&vo), seen(&va));
    if vo.said.errors > 0 && va.said.errors > 0 && x.dest == vo.dest_pre() && y.dest == va.dest_pre() {
        // refused: the destination keeps what it had
        x.dest = None;
        y.dest = None;
    }
    if let Some((k, m)) = x.diff(&y) {
        return fails(&o, &k, format!("after {} earlier runs the same command no longer gives the undisturbed outcome: {}; {}", g, m, vo.what()));
    }
    let disturbed = o.fired() > 0 || s.steps.iter().any(|t| !matches!(t, Step::Run { .. }));
    finish(Verdict::ok(disturbed), &o)
}

// ------------------------------------------------------------------ C13
fn gen13(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let d = if r.chance(10) { bigger_doc(r, ctx)? } else { any_doc(r, 35) };
    let ch = channel(r);
    let mut w = world(r, &d, ch);
    w.p.cmd_mut().copy_on_error = r.chance(45);
    let mut fam = "plain";
    if let (Some(o), true) = (w.out_path.clone(), r.chance(15)) {
        // the destination has a second name elsewhere
        if w.files.iter().any(|f| matches!(f, FileSpec::File { path, .. } if *path == o)) {
            w.files.push(FileSpec::Hardlink { path: "/w/res/second.svg".into(), to: o });
            fam = "second name";
        }
    }
    // things a careless program would step on
    if let Some(o) = w.out_path.clone() {
        for suf in [".tmp", ".bak", "~", ".part", ".new", ".old", ".swp"] {
            if r.chance(30) {
                w.files.push(FileSpec::file(&format!("{}{}", o, suf), b"precious"));
            }
        }
    }
    if ch.1 && r.chance(12) {
        unwritable(r, &mut w);
        fam = "unwritable";
    }
    let mut s = one("C13", fam, w);
    let b = baseline(ctx, &s);
    let tr = &b.groups[0].trace;
    let total = b.p0().nalloc;
    match r.below(8) {
        0 | 1 => {}
        2 => s.proc0_mut().alloc = alloc_plan(r, total),
        3 => s.capacity = Some(r.below(d.bytes.len() + 20) as u64),
        _ => {
            for _ in 0..1 + r.below(3) {
                if let Some(k) = pick_op(r, tr, |_| true) {
                    let f = fault_at(r, tr, k, true);
                    s.proc0_mut().faults.push(f);
                }
            }
        }
    }
    if r.chance(20) {
        s.proc0_mut().frag = Some(frag_for(r, d.bytes.len()));
    }
    Some(s)
}

fn judge13(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    if let Some((k, m)) = foreign_change(&v) {
        return fails(&o, &k, m);
    }
    // other names that the run used for a while, or looked for: now something is there
    let pre = v.pre.snapshot();
    let mine = own_names(&v);
    let mut names: Vec<String> = looked_for(&v);
    for m in v.log {
        if m.proc >= 0 && m.path.starts_with('/') && !mine.contains(&m.path) && !pre.contains_key(&m.path) && !names.contains(&m.path) {
            names.push(m.path.clone());
        }
    }
    names.truncate(8);
    if !names.is_empty() {
        ctx.probe("other names used during the run");
        let mut t = s.clone();
        present(&mut t.files, &names, b"precious", v.p.env.uid);
        let o2 = ctx.run(&t);
        let w = view(&t, &o2, 0, 0);
        if let Some((k, m)) = foreign_change(&w) {
            return fails(&o2, &k, m);
        }
    }
    finish(Verdict::ok(true), &o)
}
/// Names that are the run's destination.
fn own_names(v: &View) -> Vec<String> {
    let mut mine: Vec<String> = Vec::new();
    if let Some(p) = &v.out {
        mine.push(v.dest_name().unwrap());
        mine.push(p.clone());
        // a link to a name that does not exist yet
        if let Some(t) = dangling(v.pre, p) {
            mine.push(t);
        }
    }
    mine
}
fn foreign_change(v: &View) -> Option<(String, String)> {
    let (a, b) = (v.pre.snapshot(), v.post.snapshot());
    let mine = own_names(v);
    let dino = v.out.as_ref().and_then(|p| v.pre.ino_of(p));
    let died = !matches!(v.o.exit, Exit::Code(_));
    for (p, e) in &a {
        if mine.contains(p) || Some(e.ino) == dino {
            continue;
        }
        match b.get(p) {
            None => return Some(("removed".into(), format!("{} is gone; {}", p, v.what()))),
            Some(f) if f != e => return Some(("changed".into(), format!("{} changed from {:?} to {:?}; {}", p, brief(e), brief(f), v.what()))),
            _ => {}
        }
    }
    if !died {
        for p in b.keys() {
            if !a.contains_key(p) && !mine.contains(p) {
                return Some(("created".into(), format!("{} appeared; {}", p, v.what())));
            }
        }
    }
    if v.out.is_none() {
        if let Some(m) = v.log.iter().find(|m| m.proc >= 0 && m.what != What::Utimes) {
            if !died {
                return Some(("stdout-disk".into(), format!("a run to standard output changed the disk: {:?} {}; {}", m.what, m.path, v.what())));
            }
        }
    }
    None
}
fn dangling(v: &Vfs, p: &str) -> Option<String> {
    match v.lookup(0, p, true) {
        Ok(f) => Some(v.path_of(&f)),
        Err(_) => None,
    }
}
fn brief(e: &Entry) -> String {
    format!("{}{:o} links {} {:?}", e.kind, e.mode, e.nlink, short(&e.data))
}

// ------------------------------------------------------------------ C14
fn gen14(r: &mut Rng, _ctx: &mut Ctx) -> Option<Scenario> {
    let base = match r.below(10) {
        0..=2 => option_focus(r),
        3 if r.chance(50) => {
            let (b, flags, k) = docs::layers(r);
            Doc { bytes: b.into_bytes(), kind: "valid", detail: k.into(), flags }
        }
        3 => Doc { bytes: docs::multi(r).into_bytes(), kind: "valid", detail: "text".into(), flags: docs::options(r) },
        4 => refused_doc(r),
        _ => valid_doc(r),
    };
    let mut flags = base.flags.clone();
    if r.chance(40) {
        flags.clear();
    }
    let (bytes, what) = if r.below(4000) == 0 {
        (docs::nested(r), "a block of start tags many times".to_string())
    } else if r.chance(50) {
        // swapped, lost and foreign parts leave any structure
        let mut t = match r.below(4) {
            0 => docs::rare(r),
            1 => docs::vocabulary(r),
            2 => {
                let (t, f) = crate::families::with_options(r);
                if r.chance(60) {
                    flags = f;
                }
                t
            }
            _ => docs::combined(r),
        };
        if r.chance(25) {
            flags = docs::options(r);
        }
        if r.chance(25) {
            t = docs::odd_values(r, &t);
        }
        if r.chance(3) {
            t = docs::many(r, &t);
        }
        let t = t.into_bytes();
        if r.chance(20) { docs::damage(r, &t) } else { (t, "vocabulary".to_string()) }
    } else {
        docs::damage(r, &base.bytes)
    };
    let d = Doc { bytes, kind: "valid", detail: what.clone(), flags };
    let ch = channel(r);
    let mut w = world(r, &d, ch);
    w.p.cmd_mut().multipass = r.chance(35);
    w.p.cmd_mut().allow_bigger = r.chance(80);
    let mut s = one("C14", "damage", w);
    s.note = what;
    Some(s)
}

/// A style element that holds other elements or refers to one (finding F2 too: the parser removes styles early).
fn style_with_elements(d: &[u8]) -> bool {
    let t = String::from_utf8_lossy(d);
    for (i, _) in t.match_indices("<style") {
        let mut rest = &t[i + 6..];
        let tag = &rest[..rest.find('>').unwrap_or(0)];
        if tag.contains("url(") || tag.contains("href") {
            return true;
        }
        match rest.find('>') {
            Some(e) if !rest[..e].ends_with('/') => rest = &rest[e + 1..],
            _ => continue,
        }
        while let Some(k) = rest.find('<') {
            rest = &rest[k..];
            let end = if rest.starts_with("<![CDATA[") {
                "]]>"
            } else if rest.starts_with("<!--") {
                "-->"
            } else {
                if !rest.starts_with("</style") {
                    return true;
                }
                break;
            };
            let e = rest.find(end).map(|e| e + 3).unwrap_or(rest.len());
            rest = &rest[e..];
        }
    }
    false
}

/// How deep elements are nested.
fn depth(d: &[u8]) -> usize {
    let (mut n, mut max) = (0usize, 0usize);
    for (i, c) in d.iter().enumerate() {
        match (c, d.get(i + 1)) {
            (b'<', Some(b'/')) => n = n.saturating_sub(1),
            (b'<', Some(c)) if c.is_ascii_alphabetic() => n += 1,
            (b'/', Some(b'>')) => n = n.saturating_sub(1),
            _ => {}
        }
        max = max.max(n);
    }
    max
}

/// An entity whose value leads back to itself (finding F4).
fn entity_circle(d: &[u8]) -> bool {
    let t = String::from_utf8_lossy(d);
    let mut defs: Vec<(String, String)> = Vec::new();
    for (i, _) in t.match_indices("<!ENTITY") {
        let rest = t[i + 8..].trim_start();
        let name: String = rest.chars().take_while(|c| !c.is_whitespace()).collect();
        let rest = rest[name.len()..].trim_start();
        if let Some(q) = rest.chars().next().filter(|c| *c == '"' || *c == '\'') {
            let val: String = rest[1..].chars().take_while(|c| *c != q).collect();
            defs.push((name, val));
        }
    }
    let next = |n: &str| -> Vec<String> {
        defs.iter().filter(|d| d.0 == n).flat_map(|d| defs.iter().filter(move |e| d.1.contains(&format!("&{};", e.0))).map(|e| e.0.clone())).collect()
    };
    defs.iter().any(|d| {
        let mut seen: Vec<String> = Vec::new();
        let mut todo = next(&d.0);
        while let Some(n) = todo.pop() {
            if n == d.0 {
                return true;
            }
            if !seen.contains(&n) {
                todo.extend(next(&n));
                seen.push(n);
            }
        }
        false
    })
}

/// The same run does not panic when non-SVG elements are kept (finding F2: the parser removes
/// them before it resolves the links from and to them).
fn only_with_unknown_elements(s: &Scenario, ctx: &mut Ctx) -> bool {
    let mut k = s.clone();
    let c = k.proc0_mut().cmd_mut();
    c.flags.retain(|f| !f.starts_with("--remove-nonsvg-elements"));
    c.flags.push("--remove-nonsvg-elements=no".into());
    let o = ctx.run(&k);
    let v = view(&k, &o, 0, 0);
    !v.panicked() && matches!(v.o.exit, Exit::Code(_))
}

fn judge14(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    let deep = || depth(&v.doc.clone().unwrap_or_default()) >= 10_000;
    match &v.o.exit {
        // more levels than the stack holds (finding F5): where they fit, the work grows with their square
        Exit::Hang(_) if deep() => return finish(Verdict::ok(false), &o),
        Exit::Signal(_) if v.o.stderr_tried.windows(14).any(|w| w == b"stack overflow") && deep() => {
            let msg = format!("overflowed its stack; {}", v.what());
            return finish(Verdict { known: Some(("F5", msg)), nontrivial: true, ..Verdict::default() }, &o);
        }
        Exit::Hang(h) => return fails(&o, "hang", format!("no end within the bound ({}); {}", h, v.what())),
        Exit::Blocked(h) => return fails(&o, "blocked", format!("waits for {}; {}", h, v.what())),
        // (a panic while a panic unwinds aborts: judged as the first one)
        Exit::Signal(_) if v.o.stderr_tried.windows(14).any(|w| w == b"stack overflow") && entity_circle(&v.doc.clone().unwrap_or_default()) => {
            let msg = format!("overflowed its stack; {}", v.what());
            return finish(Verdict { known: Some(("F4", msg)), nontrivial: true, ..Verdict::default() }, &o);
        }
        Exit::Signal(n) if !String::from_utf8_lossy(&v.o.stderr).contains("panicked at") => return fails(&o, "crash", format!("died of signal {}; {}", n, v.what())),
        _ => {}
    }
    if v.panicked() {
        let line = String::from_utf8_lossy(&v.o.stderr).lines().find(|l| l.contains("panicked at")).unwrap_or("").split("panicked at").nth(1).unwrap_or("").trim().to_string();
        let msg = format!("panicked; {}", v.what());
        let doc = v.doc.clone().unwrap_or_default();
        if line.contains("simplecss-") && line.contains("/stream.rs:") && String::from_utf8_lossy(&doc).contains("<style") {
            return finish(Verdict { known: Some(("F3", msg)), nontrivial: true, ..Verdict::default() }, &o);
        }
        if line.contains("svgdom-") && line.contains("/dom/node.rs:") && (style_with_elements(&doc) || ctx.quietly(|c| only_with_unknown_elements(s, c))) {
            return finish(Verdict { known: Some(("F2", msg)), nontrivial: true, ..Verdict::default() }, &o);
        }
        return fails(&o, &format!("panic {}", line), msg);
    }
    let touched = !v.o.stdout.is_empty() || !v.dest_changes().is_empty();
    if v.said.errors == 0 && !touched {
        return fails(&o, "neither", format!("neither delivered nor reported an error; {}", v.what()));
    }
    if v.said.errors > 0 && touched && !v.cmd().copy_on_error {
        return fails(&o, "both", format!("reported an error and delivered something; {}", v.what()));
    }
    finish(Verdict::ok(true), &o)
}

// ------------------------------------------------------------------ C15
fn gen15(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let d = match r.below(10) {
        0..=3 => {
            let size = docs::pick_size(r);
            Doc { bytes: docs::valid(r, size, true, true).into_bytes(), kind: "valid", detail: "warnings".into(), flags: docs::options(r) }
        }
        4 | 5 => valid_doc(r),
        6 => bigger_doc(r, ctx)?,
        _ => any_doc(r, 100),
    };
    let ch = channel(r);
    let mut w = world(r, &d, ch);
    w.p.cmd_mut().copy_on_error = r.chance(40);
    w.p.cmd_mut().quiet = r.chance(15);
    let mut fam = "messages fail";
    if r.chance(8) {
        let (i, o) = (w.in_path.clone().unwrap_or("/w/in.svg".into()), w.out_path.clone().unwrap_or("/w/out.svg".into()));
        w.p.cmd_mut().raw = Some(docs::bad_args(r, &i, &o).0);
    } else if r.chance(6) {
        if let Some(p) = w.in_path.clone() {
            w.files.retain(|f| !matches!(f, FileSpec::File { path, .. } if *path == p));
        }
    }
    let mut s = one("C15", fam, w);
    let b = baseline(ctx, &s);
    let tr = &b.groups[0].trace;
    let n = tr.iter().filter(|t| t.obj == "stderr" && t.op == "write").count();
    let len = b.p0().stderr.len();
    let errs = [libc::EPIPE, libc::EIO, libc::ENOSPC, libc::EAGAIN, libc::EBADF];
    match r.below(7) {
        0 => {
            fam = "quiet";
            s.proc0_mut().cmd_mut().quiet = true;
            if r.chance(60) {
                // quiet must not hide that something failed
                if let Some(k) = pick_op(r, tr, |t| t.obj != "stderr") {
                    let f = fault_at(r, tr, k, false);
                    s.proc0_mut().faults.push(f);
                }
            }
        }
        1 | 2 => {
            s.proc0_mut().faults.push(Fault { at: At { op: "write".into(), obj: "stderr".into(), nth: 0 }, act: Act::Errno(*r.pick(&errs)), times: 1_000_000 });
            if r.chance(35) {
                // the message that cannot be printed is about another failure
                if let Some(k) = pick_op(r, tr, |t| t.obj != "stderr") {
                    let f = fault_at(r, tr, k, false);
                    s.proc0_mut().faults.push(f);
                }
            }
        }
        3 | 4 => s.proc0_mut().faults.push(Fault { at: At { op: "write".into(), obj: "stderr".into(), nth: 0 }, act: Act::FailFrom(r.below(len + 1) as u64, *r.pick(&errs)), times: 1_000_000 }),
        5 => s.proc0_mut().faults.push(Fault { at: At { op: "write".into(), obj: "stderr".into(), nth: r.below(n.max(1)) as u32 }, act: Act::Errno(*r.pick(&errs)), times: 1 + r.below(3) as u32 }),
        _ => {
            s.proc0_mut().faults.push(Fault { at: At { op: "write".into(), obj: "stderr".into(), nth: r.below(n.max(1)) as u32 }, act: Act::Errno(*r.pick(&errs)), times: 1 });
            s.proc0_mut().frag = Some(Frag { seed: r.next(), rmax: 0, wmax: 5, eintr: 20, lat: 0 });
        }
    }
    s.family = fam.into();
    Some(s)
}

fn judge15(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let mut c = calm(s);
    if s.family == "quiet" {
        c.proc0_mut().cmd_mut().quiet = false;
    }
    // the same run, only with messages that can be printed
    c.proc0_mut().faults = s.proc0().faults.iter().filter(|f| f.at.obj != "stderr").cloned().collect();
    let a = ctx.quietly(|x| x.run(&c));
    let o = ctx.run(s);
    let (va, vo) = (view(&c, &a, 0, 0), view(s, &o, 0, 0));
    if va.panicked() || !matches!(va.o.exit, Exit::Code(_)) {
        return finish(Verdict::ok(false), &o);
    }
    let (x, y) = (seen(&vo), seen(&va));
    if x.dest != y.dest {
        return fails(&o, "destination", format!("destination {} instead of {}; {}", opt(&x.dest), opt(&y.dest), vo.what()));
    }
    if x.stdout != y.stdout {
        return fails(&o, "stdout", format!("standard output {:?} instead of {:?}; {}", short(&x.stdout), short(&y.stdout), vo.what()));
    }
    let clap = va.o.exit != Exit::Code(0) || s.proc0().cmd().raw.is_some();
    if !clap && (!matches!(vo.o.exit, Exit::Code(_)) || vo.o.exit == Exit::Code(101) || Said::new(&vo.o.stderr_tried).panicked) {
        return fails(&o, "panic", format!("ended with {:?} because a message could not be printed; tried {:?}", vo.o.exit, short(&vo.o.stderr_tried)));
    }
    if s.family == "quiet" && s.proc0().cmd().quiet {
        let strip = |b: &[u8]| String::from_utf8_lossy(b).lines().filter(|l| !l.to_ascii_lowercase().contains("your image is")).collect::<Vec<_>>().join("\n");
        if strip(&x.stderr) != strip(&y.stderr) {
            return fails(&o, "quiet", format!("quiet changed other messages: {:?} instead of {:?}; {}", short(&x.stderr), short(&y.stderr), vo.what()));
        }
        if vo.said.success {
            return fails(&o, "quiet-success", format!("the success message was printed; {}", vo.what()));
        }
        if x.exit != y.exit {
            return fails(&o, "quiet-exit", format!("{:?} instead of {:?}; {}", x.exit, y.exit, vo.what()));
        }
    }
    finish(Verdict::ok(o.fired() > 0 || s.family == "quiet"), &o)
}

// ------------------------------------------------------------------ C16
fn gen16(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let mut files = bystanders();
    files.push(FileSpec::Dir { path: "/w/pics".into(), mode: 0o755 });
    let mut procs = Vec::new();
    let mut pipes = Vec::new();
    let mut family = "side by side".to_string();
    if r.chance(55) {
        let n = 2 + r.below(3);
        let shared = if r.chance(35) { Some(any_doc(r, 25)) } else { None };
        if let Some(d) = &shared {
            files.push(FileSpec::file("/w/in.svg", &d.bytes));
            family = "same input".into();
        }
        for i in 0..n {
            let d = shared.clone().unwrap_or_else(|| any_doc(r, 20));
            let stdin = shared.is_none() && r.chance(20);
            let stdout = r.chance(25);
            let name = if shared.is_some() { "in.svg".to_string() } else { format!("pics/in{}.svg", i) };
            if shared.is_none() && !stdin {
                files.push(FileSpec::file(&format!("/w/{}", name), &d.bytes));
            }
            let out = format!("out{}.svg", i);
            if r.chance(40) {
                files.push(FileSpec::file(&format!("/w/{}", out), &old_content(r, d.bytes.len())));
            }
            let mut c = Cmd::new(if stdin { Place::Std } else { Place::File(name) }, if stdout { Place::Std } else { Place::File(out) });
            c.flags = if r.chance(50) { d.flags.clone() } else { docs::options(r) };
            tune(r, &mut c);
            let mut p = Proc::cli(c);
            p.env.pid = 5000 + i as u64;
            p.env.hash_seed = r.next();
            if stdin {
                p.stdin = InSpec::Bytes { data: Blob(d.bytes.clone()) };
            }
            if r.chance(40) {
                p.frag = Some(frag_for(r, d.bytes.len()));
                p.frag.as_mut().unwrap().lat = 0;
            }
            procs.push(p);
        }
    } else {
        family = "pipeline".into();
        let n = 2 + r.below(2);
        let d = any_doc(r, 20);
        files.push(FileSpec::file("/w/in.svg", &d.bytes));
        for i in 0..n {
            let mut c = Cmd::new(if i == 0 { Place::File("in.svg".into()) } else { Place::Std }, if i + 1 < n || r.chance(40) { Place::Std } else { Place::File("out.svg".into()) });
            c.flags = if r.chance(60) { docs::options(r) } else { vec![] };
            c.multipass = r.chance(20);
            c.quiet = r.chance(40);
            c.allow_bigger = r.chance(90);
            let mut p = Proc::cli(c);
            if i > 0 {
                p.stdin = InSpec::Pipe(i - 1);
            }
            if i + 1 < n {
                p.stdout = OutSpec::Pipe(i);
                pipes.push(*r.pick(&[1u32, 7, 64, 512, 4096, 65536]));
            }
            p.env.pid = 5000 + i as u64;
            if r.chance(40) {
                p.frag = Some(frag_for(r, d.bytes.len()));
                p.frag.as_mut().unwrap().lat = 0;
            }
            procs.push(p);
        }
        if d.bytes.len() > 20_000 {
            for c in &mut pipes {
                *c = (*c).max(512);
            }
        }
        if r.chance(25) {
            family = "reader goes away".into();
            let k = 1 + r.below(n - 1);
            let nth = r.below(6) as u32;
            procs[k].faults.push(Fault { at: At { op: "any".into(), obj: "".into(), nth }, act: Act::KillBefore, times: 1 });
        }
    }
    let mut sw = Vec::new();
    let n = procs.len();
    let mean = *r.pick(&[1usize, 2, 3, 6]);
    let mut at = 1u64;
    for _ in 0..400 {
        at += r.below(2 * mean) as u64 + (mean > 1) as u64;
        sw.push((at, r.below(n)));
        at += 1;
    }
    let _ = ctx;
    Some(Scenario { prop: "C16".into(), family, seed: 0, files, capacity: None, steps: vec![Step::Run { procs, switches: sw, pipes }], note: String::new() })
}

fn judge16(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let (procs, pipes) = match &s.steps[..] {
        [Step::Run { procs, pipes, .. }] => (procs.clone(), pipes.clone()),
        _ => return Verdict::ok(false),
    };
    if procs.len() < 2 {
        return Verdict::ok(false);
    }
    // one after another, each undisturbed, streams replaced by what was delivered
    let mut piped: Vec<Vec<u8>> = vec![vec![]; pipes.len()];
    let mut alone = Vec::new();
    let mut broken = false;
    for p in &procs {
        let mut q = p.undisturbed();
        if let InSpec::Pipe(n) = p.stdin {
            q.stdin = InSpec::Bytes { data: Blob(piped[n].clone()) };
        }
        if let OutSpec::Pipe(_) = p.stdout {
            q.stdout = OutSpec::Sink { kind: "pipe".into() };
        }
        let t = Scenario::one("C16", "alone", 0, s.files.clone(), q);
        let a = ctx.quietly(|c| c.run(&t));
        let v = view(&t, &a, 0, 0);
        broken |= v.panicked() || !matches!(v.o.exit, Exit::Code(_));
        if let OutSpec::Pipe(n) = p.stdout {
            piped[n] = v.o.stdout.clone();
        }
        alone.push(seen(&v));
    }
    let o = ctx.run(s);
    if broken {
        return finish(Verdict::ok(false), &o);
    }
    let gone = procs.iter().any(|p| !p.faults.is_empty());
    for i in 0..procs.len() {
        let v = view(s, &o, 0, i);
        if matches!(v.o.exit, Exit::Blocked(_) | Exit::Hang(_)) {
            return fails(&o, "stuck", format!("process {} never ends; {}", i, v.what()));
        }
        let x = seen(&v);
        if gone {
            if v.killed() {
                continue;
            }
            if v.panicked() {
                return fails(&o, "panic", format!("process {}; {}", i, v.what()));
            }
            // processes before the one that went away: complete or a reported error
            let upstream_ok = procs[..i].iter().all(|p| p.faults.is_empty());
            if upstream_ok && v.said.errors == 0 && (x.stdout != alone[i].stdout || x.dest != alone[i].dest) {
                return fails(&o, "silent-loss", format!("the reader went away; process {} delivered {:?} of {:?} and reported nothing; {}", i, short(&x.stdout), short(&alone[i].stdout), v.what()));
            }
            continue;
        }
        if let Some((k, m)) = x.diff(&alone[i]) {
            return fails(&o, &k, format!("process {} of {} running together: {}; {}", i, procs.len(), m, v.what()));
        }
    }
    // standard error is usually one terminal or log for all of them
    if let Some(all) = common_log(&o.groups[0]) {
        let lines = |b: &[u8]| -> Vec<Vec<u8>> { b.split(|c| *c == b'\n').map(|l| l.to_vec()).filter(|l| !l.is_empty()).collect() };
        let mut got = lines(&all);
        let mut want: Vec<Vec<u8>> = o.groups[0].procs.iter().flat_map(|p| lines(&p.stderr)).collect();
        got.sort();
        want.sort();
        if got != want {
            return fails(&o, "torn-message", format!("messages of runs that share standard error are torn: {:?}", short(&all)));
        }
    }
    finish(Verdict::ok(o.groups[0].switches > 2), &o)
}

/// What all processes wrote to standard error, in the order of their calls (if no call was cut short).
fn common_log(g: &GroupOut) -> Option<Vec<u8>> {
    let mut all = Vec::new();
    let mut pos = vec![0usize; g.procs.len()];
    for t in g.trace.iter().filter(|t| t.op == "write" && t.obj == "stderr") {
        if t.ret < 0 || t.ret != t.arg {
            return None;
        }
        let n = t.ret as usize;
        all.extend_from_slice(g.procs[t.proc].stderr.get(pos[t.proc]..pos[t.proc] + n)?);
        pos[t.proc] += n;
    }
    Some(all)
}

// ------------------------------------------------------------------ C17
fn gen17(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let d = if r.chance(10) { bigger_doc(r, ctx)? } else { any_doc(r, 30) };
    let chan = channel(r);
    let mut w = world(r, &d, chan);
    w.p.cmd_mut().copy_on_error = r.chance(35);
    let mut fam = "sticky";
    if chan.0 && r.chance(30) {
        w.p.stdin = InSpec::Stalls { data: Blob(if r.chance(50) { vec![] } else { b"<svg/>".to_vec() }) };
        fam = "stalled standard input";
    }
    let mut s = one("C17", fam, w);
    let b = baseline(ctx, &s);
    let tr = &b.groups[0].trace;
    let n = r.below(4) + (fam == "sticky") as usize;
    for _ in 0..n {
        let only_writes = r.chance(25);
        if let Some(k) = pick_op(r, tr, |t| (t.obj != "stderr" || t.op != "write") && (!only_writes || t.op == "write")) {
            let mut at = at_of(tr, k);
            let es: Vec<i32> = errnos(&at.op, &at.obj).iter().copied().filter(|e| *e != libc::EINTR).collect();
            let e = *r.pick(&es);
            let act = match r.below(6) {
                0 if matches!(tr[k].op, "read" | "write" | "copyrange") => Act::Short(1 + r.below(3) as u32),
                1 if matches!(tr[k].op, "read" | "write" | "copyrange") => Act::FailFrom(r.below(tr[k].ret.max(1) as usize) as u64, e),
                2 if tr[k].op != "copyrange" => Act::Errno(libc::EINTR),
                _ => Act::Errno(e),
            };
            let times = match &act {
                Act::Errno(e) if *e == libc::EINTR => 1 + r.below(200) as u32,
                Act::FailFrom(..) => {
                    at.nth = 0;
                    1_000_000
                }
                _ => 1_000_000,
            };
            if matches!(act, Act::Short(_)) && d.bytes.len() > 20_000 {
                continue;
            }
            if matches!(act, Act::Errno(_)) && r.chance(15) {
                at.obj = String::new();
                if at.op == "write" || matches!(act, Act::Errno(e) if e == libc::EINTR) {
                    continue;
                }
            }
            s.proc0_mut().faults.push(Fault { at, act, times });
        }
    }
    if r.chance(20) {
        s.capacity = Some(r.below(d.bytes.len() + 20) as u64);
    }
    Some(s)
}

fn judge17(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    match &v.o.exit {
        Exit::Hang(h) => return fails(&o, "hang", format!("no end within the bound ({}); {}", h, v.what())),
        Exit::Blocked(h) if v.inp.is_some() || !matches!(v.p.stdin, InSpec::Stalls { .. }) => return fails(&o, "blocked", format!("waits forever for {}; {}", h, v.what())),
        Exit::Blocked(_) => return finish(Verdict::ok(false), &o),
        _ => {}
    }
    if v.killed() {
        return finish(Verdict::ok(false), &o);
    }
    let doc = v.doc.clone().unwrap_or_default();
    let want = ctx.want(v.cmd(), &doc);
    if matches!(want, Want::Broken(_)) {
        return finish(Verdict::ok(false), &o);
    }
    if v.panicked() {
        return fails(&o, "panic", v.what());
    }
    let got = v.dest_post();
    if v.said.errors == 0 && !got.as_ref().map(|b| want.accepts(b)).unwrap_or(false) {
        return fails(&o, "silent-end", format!("ended without delivering (destination {}) and without an error; {}", opt(&got), v.what()));
    }
    finish(Verdict::ok(o.fired() > 0 || matches!(v.p.stdin, InSpec::Stalls { .. })), &o)
}

// ------------------------------------------------------------------ C18
fn gen18(r: &mut Rng, ctx: &mut Ctx) -> Option<Scenario> {
    let d = if r.chance(10) { bigger_doc(r, ctx)? } else { any_doc(r, 40) };
    let e = any_doc(r, 40);
    let ch = (true, r.chance(85));
    let mut w = world(r, &d, ch);
    w.p.cmd_mut().copy_on_error = r.chance(60);
    let inp = w.in_path.clone().unwrap();
    let out = w.out_path.clone();
    w.files.push(FileSpec::file("/w/version2.svg", &e.bytes));
    w.files.push(FileSpec::file("/w/newout.svg", OLD));
    if r.chance(60) {
        w.p.frag = Some(Frag { seed: r.next(), rmax: (d.bytes.len() as u32 / 3).max(1), wmax: (d.bytes.len() as u32 / 3).max(1), eintr: 0, lat: 0 });
    }
    let mut s = one("C18", "input", w);
    let b = baseline(ctx, &s);
    let tr = b.groups[0].trace.clone();
    for i in 0..1 + r.below(2) {
        let k = pick_op(r, &tr, |_| true)?;
        let at = at_of(&tr, k);
        let ev = match r.below(if out.is_some() { 14 } else { 9 }) {
            0..=3 => vec![DiskAct::Replace { path: inp.clone(), data: Blob(e.bytes.clone()) }],
            4 => vec![DiskAct::Rename { from: "/w/version2.svg".into(), to: inp.clone() }],
            5 => vec![DiskAct::Unlink { path: inp.clone() }],
            6 => vec![DiskAct::Rename { from: inp.clone(), to: format!("/w/moved{}.svg", i) }],
            7 => vec![DiskAct::Symlink { path: inp.clone(), target: "/w/version2.svg".into() }],
            8 => vec![DiskAct::Chmod { path: inp.clone(), mode: 0 }],
            9 => vec![DiskAct::Unlink { path: out.clone().unwrap() }],
            10 => vec![DiskAct::Rename { from: "/w/newout.svg".into(), to: out.clone().unwrap() }],
            11 => vec![DiskAct::Replace { path: out.clone().unwrap(), data: Blob(OLD.to_vec()) }],
            12 => vec![DiskAct::Rename { from: out.clone().unwrap(), to: format!("/w/movedout{}.svg", i) }],
            _ => vec![DiskAct::Chmod { path: out.clone().unwrap(), mode: 0o444 }],
        };
        s.proc0_mut().faults.push(Fault { at, act: Act::Event(ev), times: 1 });
    }
    Some(s)
}

fn judge18(s: &Scenario, ctx: &mut Ctx) -> Verdict {
    let o = ctx.run(s);
    let v = view(s, &o, 0, 0);
    let inp = match &v.inp {
        Some(p) => p.clone(),
        None => return finish(Verdict::ok(false), &o),
    };
    // every version that was ever at the input's name
    let mut versions: Vec<Vec<u8>> = v.doc.iter().cloned().collect();
    let mut on_output = false;
    let outs: Vec<String> = v.out.iter().cloned().chain(v.dest_name()).collect();
    let mut actor: Vec<Vec<u8>> = v.dest_pre().into_iter().collect();
    for f in &v.p.faults {
        if let Act::Event(a) = &f.act {
            for x in a {
                match x {
                    DiskAct::Replace { path, data } if *path == inp => versions.push(data.0.clone()),
                    DiskAct::Rename { from, to } if *to == inp => versions.extend(v.pre.content(from).map(|b| b.to_vec())),
                    DiskAct::Symlink { path, target } if *path == inp => versions.extend(v.pre.content(target).map(|b| b.to_vec())),
                    DiskAct::Replace { path, data } if outs.contains(path) => {
                        on_output = true;
                        actor.push(data.0.clone());
                    }
                    DiskAct::Rename { from, to } if outs.contains(to) => {
                        on_output = true;
                        actor.extend(v.pre.content(from).map(|b| b.to_vec()));
                    }
                    DiskAct::Unlink { path } | DiskAct::Chmod { path, .. } if outs.contains(path) => on_output = true,
                    DiskAct::Rename { from, .. } if outs.contains(from) => on_output = true,
                    _ => {}
                }
            }
        }
    }
    if v.panicked() || !matches!(v.o.exit, Exit::Code(_)) {
        let broken = versions.iter().any(|d| matches!(ctx.want(v.cmd(), d), Want::Broken(_)));
        return if broken { finish(Verdict::ok(false), &o) } else { fails(&o, "crash", v.what()) };
    }
    let wants: Vec<Want> = versions.iter().map(|d| ctx.want(v.cmd(), d)).collect();
    if wants.iter().any(|w| matches!(w, Want::Broken(_))) {
        return finish(Verdict::ok(false), &o);
    }
    // files at the input's name are never written
    let own: Vec<Ino> = v.out.iter().filter_map(|p| v.pre.ino_of(p)).collect();
    if let Some(m) = v.log.iter().find(|m| m.proc >= 0 && m.what != What::Utimes && (m.path == inp || m.path == v.in_name().unwrap() || m.path == "/w/version2.svg") && !own.contains(&m.ino)) {
        return fails(&o, "input-modified", format!("{:?} of {} at step {}; {}", m.what, m.path, m.step, v.what()));
    }
    let got = v.dest_post();
    let is_result = |b: &[u8]| wants.iter().any(|w| w.accepts(b));
    let is_version = |b: &[u8]| versions.iter().any(|d| d == b);
    let is_actor = |b: &[u8]| actor.iter().any(|d| d == b);
    if v.said.errors == 0 {
        let ok = match &got {
            Some(b) => is_result(b) || on_output && is_actor(b),
            None => on_output,
        };
        // if another program moved the destination away, the result went with the file
        if !ok {
            return fails(&o, "mixture", format!("no error, but the destination holds {}, which is the result for none of the {} versions; {}", opt(&got), versions.len(), v.what()));
        }
        if !wants.iter().any(|w| w.delivers()) {
            return fails(&o, "not-refused", v.what());
        }
    } else {
        let copying = v.cmd().copy_on_error && v.out.is_some() && wants.iter().any(|w| w.refused());
        let ok = match &got {
            None => true,
            Some(b) if v.out.is_none() => b.is_empty(),
            Some(b) => is_actor(b) || on_output && (b.is_empty() || is_version(b) || is_result(b)) || copying && (is_version(b) || v.said.errors >= 2),
        };
        if !ok {
            return fails(&o, "torn", format!("an error was reported and the destination holds {}; {}", opt(&got), v.what()));
        }
    }
    finish(Verdict::ok(o.fired() > 0), &o)
}

/// What a scenario cleans, for measuring what the documents reach.
pub fn documents(s: &Scenario, jobs: &mut Vec<Job>) {
    for p in s.procs() {
        match &p.prog {
            Prog::Lib(_) => {
                if let InSpec::Bytes { data } = &p.stdin {
                    jobs.extend(parse_script(&data.0).unwrap_or_default().into_iter().map(|mut j| { j.thread = 0; j }));
                }
            }
            Prog::Cli(c) => {
                if c.raw.is_some() {
                    continue;
                }
                let doc = match (&c.input, &p.stdin) {
                    (Place::Std, InSpec::Bytes { data }) => Some(data.0.clone()),
                    _ => s.files.iter().filter_map(|f| match f {
                        FileSpec::File { data, .. } if data.0.len() > 100 => Some(data.0.clone()),
                        _ => None,
                    }).next(),
                };
                if let Some(doc) = doc {
                    jobs.push(Job { thread: 0, flags: c.flags.iter().filter(|f| !f.contains(' ')).cloned().collect(), doc });
                }
            }
        }
    }
}
