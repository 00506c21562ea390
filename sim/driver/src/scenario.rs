//! A scenario is everything that decides an execution: documents, disk, command lines,
//! environment, fault plan, external events and schedule. It is what a replay file holds.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Bytes that are written as text where possible.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Blob(pub Vec<u8>);

impl Serialize for Blob {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) if self.0.len() > 1 << 20 => {
                // a long run of one character is written as its place and length
                let (at, n) = longest_run(&self.0);
                if n > 1 << 19 {
                    s.serialize_str(&format!("r:{},{},{};{}{}", at, self.0[at], n, &t[..at], &t[at + n..]))
                } else {
                    s.serialize_str(&format!("t:{}", t))
                }
            }
            Ok(t) => s.serialize_str(&format!("t:{}", t)),
            Err(_) => {
                let mut h = String::from("x:");
                for b in &self.0 {
                    h.push_str(&format!("{:02x}", b));
                }
                s.serialize_str(&h)
            }
        }
    }
}
/// Start and length of the longest run of one ASCII character.
fn longest_run(b: &[u8]) -> (usize, usize) {
    let (mut best, mut i) = ((0, 0), 0);
    while i < b.len() {
        let mut j = i + 1;
        while j < b.len() && b[j] == b[i] {
            j += 1;
        }
        if j - i > best.1 && b[i] < 128 {
            best = (i, j - i);
        }
        i = j;
    }
    best
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Blob, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(t) = s.strip_prefix("t:") {
            return Ok(Blob(t.as_bytes().to_vec()));
        }
        if let Some(t) = s.strip_prefix("r:") {
            let bad = || serde::de::Error::custom("bad run");
            let (head, rest) = t.split_once(';').ok_or_else(bad)?;
            let n: Vec<usize> = head.split(',').filter_map(|k| k.parse().ok()).collect();
            if n.len() != 3 || n[0] > rest.len() {
                return Err(bad());
            }
            let mut v = rest.as_bytes()[..n[0]].to_vec();
            v.resize(n[0] + n[2], n[1] as u8);
            v.extend_from_slice(&rest.as_bytes()[n[0]..]);
            return Ok(Blob(v));
        }
        let h = s.strip_prefix("x:").ok_or_else(|| serde::de::Error::custom("bad blob"))?;
        Ok(Blob((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()))
    }
}
impl From<&str> for Blob {
    fn from(s: &str) -> Blob {
        Blob(s.as_bytes().to_vec())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileSpec {
    File { path: String, data: Blob, #[serde(default = "m644")] mode: u32, #[serde(default = "u1000")] uid: u32, #[serde(default)] report_size: Option<u64> },
    Dir { path: String, mode: u32 },
    Symlink { path: String, target: String },
    Hardlink { path: String, to: String },
}
fn m644() -> u32 {
    0o644
}
fn u1000() -> u32 {
    1000
}
impl FileSpec {
    pub fn file(path: &str, data: &[u8]) -> FileSpec {
        FileSpec::File { path: path.into(), data: Blob(data.to_vec()), mode: 0o644, uid: 1000, report_size: None }
    }
}

/// Which call a fault hits: the nth one of this kind on this object.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct At {
    /// "open", "read", "write", ... or "any"
    pub op: String,
    /// "stdin", "stdout", "stderr", a canonical path, or "" for all
    pub obj: String,
    pub nth: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// The call fails.
    Errno(i32),
    /// It transfers at most so many bytes.
    Short(u32),
    /// Transfers on the object work up to this many bytes in total, then fail.
    FailFrom(u64, i32),
    /// The process is killed before the call, after it, or with part of the data transferred.
    KillBefore,
    KillAfter,
    KillMid(u32),
    /// Another program acts on the disk just before the call.
    Event(Vec<DiskAct>),
    /// The call takes this long (simulated nanoseconds).
    Delay(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub at: At,
    pub act: Act,
    /// How many matching calls it hits, from the nth on.
    pub times: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DiskAct {
    /// New inode moved over the name (the atomic way of saving).
    Replace { path: String, data: Blob },
    Rewrite { path: String, data: Blob },
    Append { path: String, data: Blob },
    Truncate { path: String, len: u64 },
    Unlink { path: String },
    Rename { from: String, to: String },
    Symlink { path: String, target: String },
    Chmod { path: String, mode: u32 },
    Capacity { bytes: Option<u64> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Frag {
    pub seed: u64,
    /// Largest read and write, 0 = no limit.
    pub rmax: u32,
    pub wmax: u32,
    /// Percentage of interrupted calls.
    pub eintr: u32,
    /// Mean extra latency per call in simulated nanoseconds.
    pub lat: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum InSpec {
    Bytes { data: Blob },
    /// Data, then a failing read.
    Fails { data: Blob, errno: i32 },
    /// Data, then nothing, but the writer never closes its end.
    Stalls { data: Blob },
    /// Reading end of pipe n of the group.
    Pipe(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OutSpec {
    /// kind: "file", "pipe" or "tty"
    Sink { kind: String },
    Pipe(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Env {
    pub hash_seed: u64,
    pub alloc_seed: u64,
    pub pid: u64,
    pub uid: u32,
    pub clock: u64,
    pub cwd: String,
    pub vars: Vec<(String, String)>,
    pub no_statx: bool,
    pub no_cfr: bool,
    pub jitter: bool,
    /// Every environment variable the program asks for is set.
    #[serde(default)]
    pub answer_env: bool,
}
impl Env {
    pub fn plain() -> Env {
        Env {
            hash_seed: 1, alloc_seed: 1, pid: 4242, uid: 1000, clock: 1_700_000_000_000_000_000, cwd: "/w".into(),
            vars: vec![], no_statx: false, no_cfr: false, jitter: false, answer_env: false,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct AllocPlan {
    pub fail_at: u64,
    pub fail_count: u64,
    pub fail_min: u64,
    pub kill_at: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Place {
    File(String),
    Std,
}

/// A command line of svgcleaner, in structured form.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cmd {
    /// Options that decide the cleaning (see libhost).
    pub flags: Vec<String>,
    pub multipass: bool,
    pub allow_bigger: bool,
    pub copy_on_error: bool,
    pub quiet: bool,
    pub newline: bool,
    pub input: Place,
    pub output: Place,
    /// Selects among equivalent spellings of the same command line.
    pub spelling: u32,
    /// A literal command line instead.
    pub raw: Option<Vec<String>>,
}

impl Cmd {
    pub fn new(input: Place, output: Place) -> Cmd {
        Cmd { flags: vec![], multipass: false, allow_bigger: true, copy_on_error: false, quiet: false, newline: false, input, output, spelling: 0, raw: None }
    }
    pub fn argv(&self) -> Vec<String> {
        if let Some(r) = &self.raw {
            return r.clone();
        }
        let mut opts: Vec<Vec<String>> = Vec::new();
        for f in &self.flags {
            // --name=value and --name value mean the same, so do yes, y and true
            let mut f = f.clone();
            if self.spelling & 8 != 0 {
                if f.ends_with("=yes") {
                    f = f.replace("=yes", if self.spelling & 16 != 0 { "=true" } else { "=y" });
                } else if f.ends_with("=no") && !f.starts_with("--join-style") {
                    f = f.replace("=no", if self.spelling & 16 != 0 { "=false" } else { "=n" });
                }
            }
            match f.find('=') {
                Some(i) if self.spelling & 1 != 0 => opts.push(vec![f[..i].to_string(), f[i + 1..].to_string()]),
                _ => opts.push(vec![f]),
            }
        }
        if self.multipass {
            opts.push(vec!["--multipass".into()]);
        }
        if self.allow_bigger {
            opts.push(vec!["--allow-bigger-file".into()]);
        }
        if self.copy_on_error {
            opts.push(vec!["--copy-on-error".into()]);
        }
        if self.quiet {
            opts.push(vec!["--quiet".into()]);
        }
        if self.newline {
            opts.push(vec!["--append-newline=yes".into()]);
        }
        let c = if self.spelling & 2 != 0 { "--stdout" } else { "-c" };
        let pos: Vec<String> = match (&self.input, &self.output) {
            (Place::File(i), Place::File(o)) => vec![i.clone(), o.clone()],
            (Place::Std, Place::File(o)) => vec![o.clone(), "-".into()],
            (Place::File(i), Place::Std) => {
                opts.insert(0, vec![c.into()]);
                vec![i.clone()]
            }
            (Place::Std, Place::Std) => {
                opts.insert(0, vec![c.into()]);
                vec!["-".into()]
            }
        };
        let mut v = Vec::new();
        if self.spelling & 4 != 0 {
            v.extend(pos);
            v.extend(opts.into_iter().flatten());
        } else {
            v.extend(opts.into_iter().flatten());
            v.extend(pos);
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Prog {
    Cli(Cmd),
    Lib(Vec<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Proc {
    pub prog: Prog,
    pub stdin: InSpec,
    pub stdout: OutSpec,
    pub stderr: OutSpec,
    pub env: Env,
    pub faults: Vec<Fault>,
    pub frag: Option<Frag>,
    pub alloc: AllocPlan,
    /// Thread switches (point, thread) inside the process.
    pub threads: Vec<(u64, u64)>,
}

impl Proc {
    pub fn cli(cmd: Cmd) -> Proc {
        Proc {
            prog: Prog::Cli(cmd),
            stdin: InSpec::Bytes { data: Blob::default() },
            stdout: OutSpec::Sink { kind: "pipe".into() },
            stderr: OutSpec::Sink { kind: "tty".into() },
            env: Env::plain(),
            faults: vec![],
            frag: None,
            alloc: AllocPlan::default(),
            threads: vec![],
        }
    }
    pub fn cmd(&self) -> &Cmd {
        match &self.prog {
            Prog::Cli(c) => c,
            _ => panic!("not a command"),
        }
    }
    pub fn cmd_mut(&mut self) -> &mut Cmd {
        match &mut self.prog {
            Prog::Cli(c) => c,
            _ => panic!("not a command"),
        }
    }
    /// The same command without any disturbance.
    pub fn undisturbed(&self) -> Proc {
        let mut p = self.clone();
        p.faults.clear();
        p.frag = None;
        p.alloc = AllocPlan::default();
        p
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// Processes that run at the same time, the schedule among them, capacities of their pipes.
    Run { procs: Vec<Proc>, switches: Vec<(u64, usize)>, pipes: Vec<u32> },
    PowerLoss { seed: u64 },
    Disk(DiskAct),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub prop: String,
    /// Family of scenarios inside the property.
    pub family: String,
    pub seed: u64,
    pub files: Vec<FileSpec>,
    pub capacity: Option<u64>,
    pub steps: Vec<Step>,
    /// What the generator knows about the document by construction.
    #[serde(default)]
    pub note: String,
}

impl Scenario {
    pub fn one(prop: &str, family: &str, seed: u64, files: Vec<FileSpec>, p: Proc) -> Scenario {
        Scenario {
            prop: prop.into(), family: family.into(), seed, files, capacity: None,
            steps: vec![Step::Run { procs: vec![p], switches: vec![], pipes: vec![] }], note: String::new(),
        }
    }
    pub fn procs(&self) -> Vec<&Proc> {
        self.steps.iter().flat_map(|s| match s {
            Step::Run { procs, .. } => procs.iter().collect::<Vec<_>>(),
            _ => vec![],
        }).collect()
    }
    pub fn proc0(&self) -> &Proc {
        self.procs()[0]
    }
    pub fn proc0_mut(&mut self) -> &mut Proc {
        for s in &mut self.steps {
            if let Step::Run { procs, .. } = s {
                return &mut procs[0];
            }
        }
        panic!("no process")
    }
}
