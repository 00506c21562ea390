//! Runs scenarios, keeps statistics, and computes what a run should have delivered.
use crate::kernel::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::scenario::*;
use crate::vfs::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Snap = BTreeMap<String, Entry>;

pub struct Outcome {
    pub before: Snap,
    /// One per Run step.
    pub groups: Vec<GroupOut>,
    /// Disk before and after each Run step.
    pub pre: Vec<Vfs>,
    pub post: Vec<Vfs>,
    /// Length of the mutation log before and after each Run step.
    pub log_span: Vec<(usize, usize)>,
    pub vfs: Vfs,
    pub hash: u64,
}

impl Outcome {
    pub fn p0(&self) -> &ProcOut {
        &self.groups[0].procs[0]
    }
    pub fn fired(&self) -> u32 {
        self.groups.iter().flat_map(|g| g.procs.iter()).map(|p| p.fired.iter().sum::<u32>() + p.alloc_fired).sum()
    }
}

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Stats {
    /// Simulated program executions, and those among them that computed references.
    pub runs: u64,
    pub reference_runs: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub thread_switches: u64,
    pub faults: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub hashes: BTreeSet<u64>,
    pub probes: BTreeMap<String, u64>,
    pub exits: BTreeMap<String, u64>,
    pub denied: BTreeMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.reference_runs += o.reference_runs;
        self.sim_ns += o.sim_ns;
        self.steps += o.steps;
        self.switches += o.switches;
        self.thread_switches += o.thread_switches;
        for (a, b) in [(&mut self.faults, &o.faults), (&mut self.ops, &o.ops), (&mut self.probes, &o.probes), (&mut self.exits, &o.exits), (&mut self.denied, &o.denied)] {
            for (k, v) in b {
                *a.entry(k.clone()).or_default() += v;
            }
        }
        self.hashes.extend(o.hashes.iter());
    }
}

/// What cleaning a document in a fresh, quiet process gives.
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Vec<u8>),
    /// Refused, with the kind of refusal.
    Refused(String),
    /// The code under test itself crashed or hung.
    Broken(String),
}

/// What a command should do.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    /// One of these is delivered.
    Deliver(Vec<Vec<u8>>),
    Refuse(String),
    /// No statement possible: cleaning itself crashed or hung.
    Broken(String),
}
impl Want {
    pub fn delivers(&self) -> bool {
        matches!(self, Want::Deliver(_))
    }
    pub fn accepts(&self, b: &[u8]) -> bool {
        match self {
            Want::Deliver(a) => a.iter().any(|x| x == b),
            _ => false,
        }
    }
    pub fn refused(&self) -> bool {
        matches!(self, Want::Refuse(_))
    }
}

pub struct Ctx {
    pub paths: Paths,
    pub has_lib: bool,
    cache: HashMap<(u64, u64, usize), Res>,
    pub stats: Stats,
    reference: bool,
}

pub const MAX_PASSES: usize = 60;

fn errno_name(e: i32) -> String {
    match e {
        1 => "EPERM".into(),
        2 => "ENOENT".into(),
        4 => "EINTR".into(),
        5 => "EIO".into(),
        11 => "EAGAIN".into(),
        12 => "ENOMEM".into(),
        13 => "EACCES".into(),
        16 => "EBUSY".into(),
        20 => "ENOTDIR".into(),
        21 => "EISDIR".into(),
        22 => "EINVAL".into(),
        23 => "ENFILE".into(),
        24 => "EMFILE".into(),
        26 => "ETXTBSY".into(),
        27 => "EFBIG".into(),
        28 => "ENOSPC".into(),
        30 => "EROFS".into(),
        32 => "EPIPE".into(),
        0 => "nothing-accepted".into(),
        36 => "ENAMETOOLONG".into(),
        40 => "ELOOP".into(),
        75 => "EOVERFLOW".into(),
        104 => "ECONNRESET".into(),
        116 => "ESTALE".into(),
        122 => "EDQUOT".into(),
        n => format!("errno{}", n),
    }
}

pub fn act_name(a: &Act) -> String {
    match a {
        Act::Errno(e) => errno_name(*e),
        Act::Short(_) => "short-transfer".into(),
        Act::FailFrom(_, e) => format!("partial-then-{}", errno_name(*e)),
        Act::KillBefore => "kill-before".into(),
        Act::KillAfter => "kill-after".into(),
        Act::KillMid(_) => "kill-torn-write".into(),
        Act::Event(v) => format!("event-{}", match v.first() {
            Some(DiskAct::Replace { .. }) => "replace",
            Some(DiskAct::Rewrite { .. }) => "rewrite",
            Some(DiskAct::Append { .. }) => "append",
            Some(DiskAct::Truncate { .. }) => "truncate",
            Some(DiskAct::Unlink { .. }) => "unlink",
            Some(DiskAct::Rename { .. }) => "rename",
            Some(DiskAct::Symlink { .. }) => "symlink",
            Some(DiskAct::Chmod { .. }) => "chmod",
            Some(DiskAct::Capacity { .. }) => "capacity",
            None => "none",
        }),
        Act::Delay(_) => "delay".into(),
    }
}

impl Ctx {
    pub fn new(paths: Paths) -> Ctx {
        let has_lib = std::path::Path::new(&paths.lib).exists();
        Ctx { paths, has_lib, cache: HashMap::new(), stats: Stats::default(), reference: false }
    }

    pub fn probe(&mut self, p: &str) {
        *self.stats.probes.entry(p.to_string()).or_default() += 1;
    }

    pub fn run(&mut self, s: &Scenario) -> Outcome {
        let mut v = build_vfs(s);
        let before = v.snapshot();
        let mut paths = self.paths.clone();
        if let (true, Some(c)) = (s.prop == "C14" && s.seed % 4 != 0, &paths.checked) {
            paths.cli = c.clone();
        }
        let mut o = Outcome { before, groups: vec![], pre: vec![], post: vec![], log_span: vec![], vfs: Vfs::new(), hash: 7 };
        for st in &s.steps {
            match st {
                Step::Run { procs, switches, pipes } => {
                    o.pre.push(v.clone());
                    let l0 = v.log.len();
                    let g = run_group(&paths, &mut v, procs, switches, pipes);
                    o.log_span.push((l0, v.log.len()));
                    o.post.push(v.clone());
                    o.hash = mix(o.hash ^ g.hash);
                    self.account(procs, &g);
                    o.groups.push(g);
                }
                Step::PowerLoss { seed } => {
                    v.power_loss(&mut Rng::new(*seed));
                    *self.stats.faults.entry("power-loss".into()).or_default() += 1;
                    o.hash = mix(o.hash ^ seed);
                }
                Step::Disk(a) => {
                    disk_act(&mut v, a);
                    o.hash = mix(o.hash ^ 0xd15c);
                }
            }
        }
        // what ended up on the disk and in the streams is part of the execution's identity
        for (p, e) in v.snapshot() {
            o.hash = mix(o.hash ^ hash_bytes(p.as_bytes()) ^ hash_bytes(&e.data).rotate_left(7) ^ e.mode as u64);
        }
        for g in &o.groups {
            for p in &g.procs {
                o.hash = mix(o.hash ^ hash_bytes(&p.stdout) ^ hash_bytes(&p.stderr).rotate_left(9) ^ p.nalloc ^ hash_bytes(format!("{:?}", p.exit).as_bytes()));
            }
        }
        o.vfs = v;
        if !self.reference {
            self.stats.hashes.insert(o.hash);
        }
        o
    }

    fn account(&mut self, procs: &[Proc], g: &GroupOut) {
        let st = &mut self.stats;
        if self.reference {
            st.reference_runs += procs.len() as u64;
            return;
        }
        st.runs += procs.len() as u64;
        st.sim_ns += g.sim_ns;
        st.steps += g.steps;
        st.switches += g.switches;
        for (p, o) in procs.iter().zip(&g.procs) {
            for (f, n) in p.faults.iter().zip(&o.fired) {
                if *n > 0 {
                    *st.faults.entry(format!("{}:{}", f.at.op, act_name(&f.act))).or_default() += *n as u64;
                }
            }
            if o.alloc_fired > 0 {
                *st.faults.entry(if p.alloc.kill_at > 0 { "alloc:kill".into() } else { "alloc:failure".to_string() }).or_default() += o.alloc_fired as u64;
            }
            if o.frag_hits > 0 {
                *st.faults.entry("fragmented-or-interrupted-transfer".into()).or_default() += o.frag_hits as u64;
            }
            match &p.stdin {
                InSpec::Fails { .. } => *st.faults.entry("stdin:read-error".into()).or_default() += 1,
                InSpec::Stalls { .. } => *st.faults.entry("stdin:stalls".into()).or_default() += 1,
                _ => {}
            }
            st.thread_switches += o.thread_switches;
            let e = match &o.exit {
                Exit::Code(c) => format!("code-{}", c),
                Exit::Signal(s) => format!("signal-{}", s),
                Exit::Killed => "killed".into(),
                Exit::Hang(h) => format!("hang: {}", h),
                Exit::Blocked(b) => format!("blocked: {}", b),
            };
            *st.exits.entry(e).or_default() += 1;
            for d in &o.denied {
                *st.denied.entry(d.clone()).or_default() += 1;
            }
        }
        for r in &g.trace {
            *st.ops.entry(r.op.to_string()).or_default() += 1;
        }
    }

    /// Cleans one document in a fresh process under a quiet simulated system.
    pub fn clean(&mut self, doc: &[u8], flags: &[String]) -> Res {
        let key = (hash_bytes(doc), hash_bytes(flags.join("\n").as_bytes()), doc.len());
        if let Some(r) = self.cache.get(&key) {
            return r.clone();
        }
        if std::str::from_utf8(doc).is_err() {
            return Res::Refused("utf8".into());
        }
        let prog = if self.has_lib {
            let mut a = vec!["clean".to_string()];
            a.extend(flags.iter().cloned());
            Prog::Lib(a)
        } else {
            let mut c = Cmd::new(Place::Std, Place::Std);
            c.flags = flags.to_vec();
            c.quiet = true;
            Prog::Cli(c)
        };
        let mut p = Proc::cli(Cmd::new(Place::Std, Place::Std));
        p.prog = prog;
        p.stdin = InSpec::Bytes { data: Blob(doc.to_vec()) };
        let s = Scenario::one("", "reference", 0, vec![], p);
        let was = self.reference;
        self.reference = true;
        let o = self.run(&s);
        self.reference = was;
        let p = o.p0();
        let r = if self.has_lib {
            match (&p.exit, p.stdout.iter().position(|c| *c == b'\n')) {
                (Exit::Code(0), Some(k)) => {
                    let head = String::from_utf8_lossy(&p.stdout[..k]).to_string();
                    if head == "OK" {
                        Res::Ok(p.stdout[k + 1..].to_vec())
                    } else if head == "PANIC" {
                        Res::Broken("panic".into())
                    } else {
                        Res::Refused(head)
                    }
                }
                (e, _) => Res::Broken(format!("{:?}", e)),
            }
        } else {
            let err = Said::new(&p.stderr);
            match &p.exit {
                Exit::Code(0) if err.errors > 0 => Res::Refused(err.first_error),
                Exit::Code(0) => Res::Ok(p.stdout.clone()),
                e => Res::Broken(format!("{:?}", e)),
            }
        };
        if self.cache.len() > 6000 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        r
    }

    /// Runs the code in reference mode: not counted as exploration.
    pub fn quietly<T>(&mut self, f: impl FnOnce(&mut Ctx) -> T) -> T {
        let was = self.reference;
        self.reference = true;
        let r = f(self);
        self.reference = was;
        r
    }

    /// All passes of a multipass run, and what may be delivered.
    pub fn chain(&mut self, doc: &[u8], flags: &[String]) -> (Vec<Vec<u8>>, Want) {
        let mut ps: Vec<Vec<u8>> = Vec::new();
        let mut cur = doc.to_vec();
        loop {
            match self.clean(&cur, flags) {
                Res::Refused(k) => return (ps, Want::Refuse(k)),
                Res::Broken(k) => return (ps, Want::Broken(k)),
                Res::Ok(b) => {
                    ps.push(b.clone());
                    let n = ps.len();
                    if n >= 2 && ps[n - 1].len() >= ps[n - 2].len() {
                        // no longer shrinks
                        let w = if ps[n - 1].len() == ps[n - 2].len() { vec![ps[n - 1].clone(), ps[n - 2].clone()] } else { vec![ps[n - 2].clone()] };
                        return (ps, Want::Deliver(w));
                    }
                    if n > MAX_PASSES {
                        return (ps, Want::Broken("passes".into()));
                    }
                    cur = b;
                }
            }
        }
    }

    pub fn want(&mut self, cmd: &Cmd, doc: &[u8]) -> Want {
        if cmd.raw.is_some() {
            return Want::Refuse("args".into());
        }
        match flags_accepted(&cmd.flags) {
            Some(true) => {}
            Some(false) => return Want::Refuse("args".into()),
            None => return Want::Broken("options with an undocumented meaning".into()),
        }
        let w = if cmd.multipass {
            self.chain(doc, &cmd.flags).1
        } else {
            match self.clean(doc, &cmd.flags) {
                Res::Ok(b) => Want::Deliver(vec![b]),
                Res::Refused(k) => Want::Refuse(k),
                Res::Broken(k) => Want::Broken(k),
            }
        };
        match w {
            Want::Deliver(alts) => {
                if !cmd.allow_bigger && alts[0].len() > doc.len() {
                    return Want::Refuse("bigger".into());
                }
                Want::Deliver(alts.into_iter().map(|mut a| {
                    if cmd.newline {
                        a.push(b'\n');
                    }
                    a
                }).collect())
            }
            w => w,
        }
    }
}

/// Does the command line accept these options together? None: not documented.
pub fn flags_accepted(flags: &[String]) -> Option<bool> {
    let mut names: Vec<&str> = flags.iter().map(|f| f.split('=').next().unwrap()).collect();
    let get = |n: &str, default: bool| {
        flags.iter().find(|f| f.split('=').next() == Some(&format!("--{}", n)[..])).map(|f| f.ends_with("=yes")).unwrap_or(default)
    };
    names.sort();
    let n = names.len();
    names.dedup();
    if names.len() != n {
        return Some(false);
    }
    let p = get("paths-to-relative", true);
    let t = get("trim-paths", true);
    let bad = !t && get("join-arcto-flags", false)
        || !p && (get("remove-unused-segments", true) || get("convert-segments", true) || get("apply-transform-to-paths", false));
    if !bad {
        return Some(true);
    }
    if flags.iter().any(|f| f == "--no-defaults") {
        // the check looks at the normal defaults
        let set = |n: &str| flags.iter().any(|f| *f == format!("--{}=yes", n));
        if !p && !set("remove-unused-segments") && !set("convert-segments") && !set("apply-transform-to-paths") {
            return None;
        }
    }
    Some(false)
}

/// What a run said on standard error.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Said {
    pub errors: usize,
    pub first_error: String,
    pub success: bool,
    pub panicked: bool,
    pub oom: bool,
    pub warnings: usize,
}
impl Said {
    pub fn new(b: &[u8]) -> Said {
        let t = String::from_utf8_lossy(b);
        let mut s = Said::default();
        for l in t.lines() {
            let low = l.trim_start().to_ascii_lowercase();
            if low.starts_with("error") {
                s.errors += 1;
                if s.first_error.is_empty() {
                    s.first_error = l.to_string();
                }
            }
            if low.starts_with("warning") {
                s.warnings += 1;
            }
            if low.contains("your image is") {
                s.success = true;
            }
            if low.contains("panicked at") {
                s.panicked = true;
            }
            if low.contains("memory allocation of") {
                s.oom = true;
            }
        }
        s
    }
}
