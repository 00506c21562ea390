//! The simulated operating system: starts the real programs under the interposition
//! library and answers every one of their requests. Exactly one program runs at any moment.
use crate::rng::{mix, Rng};
use crate::scenario::*;
use crate::vfs::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};
use std::rc::Rc;

pub const OPS: &[&str] = &[
    "", "hello", "open", "close", "read", "write", "lseek", "fstat", "stat", "ftruncate", "truncate", "fsync", "rename",
    "unlink", "link", "symlink", "readlink", "realpath", "mkdir", "rmdir", "chmod", "fchmod", "chown", "utimes", "access",
    "getcwd", "chdir", "readdir", "copyrange", "sendfile", "dup", "sleep", "fallocate", "flock", "isatty", "denied",
    "allocevt", "deadlock", "steps", "sched", "fadvise", "getenv",
];

pub const STEP_LIMIT: u64 = 400_000;
pub const ALLOC_LIMIT: u64 = 60_000_000;
const CPU_LIMIT: u64 = 20;
const WALL_LIMIT_MS: u64 = 180_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    /// Killed by the fault plan.
    Killed,
    /// Step, allocation or processor-time bound exceeded.
    Hang(String),
    /// Waits forever for this object.
    Blocked(String),
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub proc: usize,
    pub tid: u32,
    pub op: &'static str,
    pub obj: String,
    pub arg: i64,
    pub ret: i64,
    pub err: i32,
    pub nalloc: u64,
    pub step: u64,
    pub fault: bool,
}

#[derive(Clone, Debug)]
pub struct ProcOut {
    pub exit: Exit,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// Everything the process tried to print there, delivered or not.
    pub stderr_tried: Vec<u8>,
    pub stdout_tried: Vec<u8>,
    /// Bytes the process got from each object, in order.
    pub read_from: BTreeMap<String, Vec<u8>>,
    pub denied: Vec<String>,
    pub env_reads: Vec<String>,
    pub nalloc: u64,
    /// Scheduling points passed while there were several threads.
    pub npoint: u64,
    /// Which faults of the plan took effect, how often.
    pub fired: Vec<u32>,
    pub alloc_fired: u32,
    pub kill_step: Option<u64>,
    pub stdin_left: usize,
    pub frag_hits: u32,
    pub sched_points: u64,
    pub thread_switches: u64,
}

#[derive(Clone, Debug)]
pub struct GroupOut {
    pub procs: Vec<ProcOut>,
    pub trace: Vec<OpRec>,
    pub hash: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
}

struct Pipe {
    buf: VecDeque<u8>,
    cap: usize,
    readers: u32,
    writers: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum Target {
    Ino(Ino),
    Stdin,
    Stdout,
    Stderr,
}
#[derive(Debug)]
struct Ofd {
    target: Target,
    pos: u64,
    flags: i32,
    path: String,
}

struct P {
    child: Child,
    sock: i32,
    alive: bool,
    pending: Option<Req>,
    fds: BTreeMap<i32, Rc<RefCell<Ofd>>>,
    stdin: Option<(VecDeque<u8>, InEnd)>,
    stdin_pipe: Option<usize>,
    stdout_pipe: Option<usize>,
    stderr_pipe: Option<usize>,
    out: ProcOut,
    counts: BTreeMap<(String, String), u32>,
    moved: BTreeMap<(String, String), u64>,
    frag_rng: Rng,
    eintr_run: u32,
    cwd: String,
}
#[derive(Clone, PartialEq)]
enum InEnd {
    Eof,
    Err(i32),
    Stall,
}

struct Req {
    op: u32,
    tid: u32,
    a: [i64; 6],
    pay: Vec<u8>,
}

enum Reply {
    Ok(i64, Vec<u8>),
    Err(i32),
    /// Not now.
    Block,
    /// The process does not get an answer any more.
    Kill,
}

#[derive(Clone)]
pub struct Paths {
    pub cli: String,
    /// The program with debug assertions and overflow checks, when it could be built.
    pub checked: Option<String>,
    pub lib: String,
    /// The library host with a scheduling point at every basic block, when it could be built.
    pub sched: Option<String>,
    pub shim: String,
}

pub fn build_vfs(s: &Scenario) -> Vfs {
    let mut v = Vfs::new();
    v.mkdir_p("/w");
    v.mkdir_p("/tmp");
    v.put_mode("/tmp", 0o777);
    for f in &s.files {
        match f {
            FileSpec::File { path, data, mode, uid, report_size } => {
                let i = v.put_file(path, &data.0, *mode, *uid);
                v.nodes.get_mut(&i).unwrap().report_size = *report_size;
            }
            FileSpec::Dir { path, mode } => {
                v.mkdir_p(path);
                v.put_mode(path, *mode);
            }
            FileSpec::Symlink { path, target } => {
                v.put_symlink(path, target);
            }
            FileSpec::Hardlink { path, to } => v.put_hardlink(path, to),
        }
    }
    v.capacity = s.capacity.map(|c| v.used() + c);
    v
}

pub fn disk_act(v: &mut Vfs, a: &DiskAct) {
    let who = v.cur_proc;
    v.cur_proc = -1;
    match a {
        DiskAct::Replace { path, data } => {
            if let Some(c) = v.canonical(path) {
                let tmp = format!("{}.ext", c);
                let cap = v.capacity.take();
                if let Ok((i, _)) = v.open(0, &tmp, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644) {
                    let _ = v.write(i, 0, &data.0);
                    v.nodes.get_mut(&i).unwrap().uid = 1000;
                    let _ = v.rename(0, &tmp, &c, 0);
                    v.nodes.get_mut(&i).unwrap().label = c;
                }
                v.capacity = cap;
            }
        }
        DiskAct::Rewrite { path, data } => {
            if let Some(i) = v.ino_of(path) {
                let cap = v.capacity.take();
                v.truncate(i, 0, path);
                let _ = v.write(i, 0, &data.0);
                v.capacity = cap;
            }
        }
        DiskAct::Append { path, data } => {
            if let Some(i) = v.ino_of(path) {
                let cap = v.capacity.take();
                let n = v.nodes[&i].data.len() as u64;
                let _ = v.write(i, n, &data.0);
                v.capacity = cap;
            }
        }
        DiskAct::Truncate { path, len } => {
            if let Some(i) = v.ino_of(path) {
                v.truncate(i, *len, path);
            }
        }
        DiskAct::Unlink { path } => {
            let _ = v.unlink(0, path);
        }
        DiskAct::Rename { from, to } => {
            let _ = v.rename(0, from, to, 0);
        }
        DiskAct::Symlink { path, target } => {
            let _ = v.unlink(0, path);
            let _ = v.symlink(0, target, path);
        }
        DiskAct::Chmod { path, mode } => {
            if let Some(i) = v.ino_of(path) {
                let _ = v.chmod_ino(0, i, *mode);
            }
        }
        DiskAct::Capacity { bytes } => v.capacity = bytes.map(|b| v.used() + b),
    }
    v.cur_proc = who;
}

fn hello_bytes(p: &Proc) -> Vec<u8> {
    let mut flags = 0u64;
    if p.env.no_statx {
        flags |= 1;
    }
    if p.env.no_cfr {
        flags |= 2;
    }
    if p.env.jitter {
        flags |= 4;
    }
    if p.env.answer_env {
        flags |= 16;
    }
    let sw = &p.threads[..p.threads.len().min(4096)];
    let f = [
        p.env.hash_seed, p.env.alloc_seed, p.env.alloc_seed ^ 0x7363, p.alloc.fail_at, p.alloc.fail_count, p.alloc.fail_min,
        p.alloc.kill_at, ALLOC_LIMIT, p.env.pid, flags, p.env.uid as u64, 0, sw.len() as u64,
    ];
    let mut out = Vec::new();
    for x in f {
        out.extend_from_slice(&x.to_le_bytes());
    }
    for (a, t) in sw {
        out.extend_from_slice(&a.to_le_bytes());
        out.extend_from_slice(&t.to_le_bytes());
    }
    out
}

pub fn run_group(paths: &Paths, v: &mut Vfs, procs: &[Proc], switches: &[(u64, usize)], pipe_caps: &[u32]) -> GroupOut {
    let mut k = Kernel {
        v,
        spec: procs,
        ps: Vec::new(),
        pipes: pipe_caps.iter().map(|c| Pipe { buf: VecDeque::new(), cap: (*c).max(1) as usize, readers: 0, writers: 0 }).collect(),
        trace: Vec::new(),
        hash: 0x1234,
        step: 0,
        clock: procs.iter().map(|p| p.env.clock).min().unwrap_or(0),
        t0: 0,
    };
    k.t0 = k.clock;
    for (i, p) in procs.iter().enumerate() {
        k.spawn(i, p, paths);
    }
    let nsw = k.run(switches);
    let GroupOutParts { procs, trace, hash, steps, sim_ns } = k.finish();
    v.cur_proc = -1;
    GroupOut { procs, trace, hash, sim_ns, steps, switches: nsw }
}

struct GroupOutParts {
    procs: Vec<ProcOut>,
    trace: Vec<OpRec>,
    hash: u64,
    steps: u64,
    sim_ns: u64,
}

struct Kernel<'a> {
    v: &'a mut Vfs,
    spec: &'a [Proc],
    ps: Vec<P>,
    pipes: Vec<Pipe>,
    trace: Vec<OpRec>,
    hash: u64,
    step: u64,
    clock: u64,
    t0: u64,
}

/// The private character U+F8FF stands for a byte that is not UTF-8.
fn os_arg(a: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = Vec::with_capacity(a.len());
    for (i, part) in a.split('\u{f8ff}').enumerate() {
        if i > 0 {
            v.push(0xff);
        }
        v.extend_from_slice(part.as_bytes());
    }
    std::ffi::OsString::from_vec(v)
}

impl<'a> Kernel<'a> {
    fn spawn(&mut self, idx: usize, p: &Proc, paths: &Paths) {
        let mut sv = [0i32; 2];
        let r = unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()) };
        assert!(r == 0, "socketpair");
        let (bin, args) = match &p.prog {
            Prog::Cli(c) => (&paths.cli, c.argv()),
            Prog::Lib(a) => (if a[0] == "script" { paths.sched.as_ref().unwrap_or(&paths.lib) } else { &paths.lib }, a.clone()),
        };
        let mut cmd = Command::new(bin);
        cmd.arg0("svgcleaner").args(args.iter().map(|a| os_arg(a))).env_clear();
        for (a, b) in &p.env.vars {
            cmd.env(a, b);
        }
        cmd.env("LD_PRELOAD", &paths.shim).env("SIM_FD", sv[1].to_string());
        cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(if std::env::var("SIMCTL_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() });
        unsafe { libc::fcntl(sv[1], libc::F_SETFD, 0) };
        let child = cmd.spawn().expect("cannot start the program");
        unsafe {
            libc::close(sv[1]);
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 1 };
            libc::prlimit(child.id() as i32, libc::RLIMIT_CPU, &lim, std::ptr::null_mut());
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::prlimit(child.id() as i32, libc::RLIMIT_AS, &lim, std::ptr::null_mut());
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::prlimit(child.id() as i32, libc::RLIMIT_CORE, &lim, std::ptr::null_mut());
        }
        let mut fds = BTreeMap::new();
        for (n, t) in [(0, Target::Stdin), (1, Target::Stdout), (2, Target::Stderr)] {
            let path = ["stdin", "stdout", "stderr"][n as usize].to_string();
            fds.insert(n, Rc::new(RefCell::new(Ofd { target: t, pos: 0, flags: libc::O_RDWR, path })));
        }
        let (stdin, stdin_pipe) = match &p.stdin {
            InSpec::Bytes { data } => (Some((data.0.iter().copied().collect(), InEnd::Eof)), None),
            InSpec::Fails { data, errno } => (Some((data.0.iter().copied().collect(), InEnd::Err(*errno))), None),
            InSpec::Stalls { data } => (Some((data.0.iter().copied().collect(), InEnd::Stall)), None),
            InSpec::Pipe(n) => {
                self.pipes[*n].readers += 1;
                (None, Some(*n))
            }
        };
        let out_pipe = |k: &mut Kernel, o: &OutSpec| match o {
            OutSpec::Pipe(n) => {
                k.pipes[*n].writers += 1;
                Some(*n)
            }
            _ => None,
        };
        let stdout_pipe = out_pipe(self, &p.stdout);
        let stderr_pipe = out_pipe(self, &p.stderr);
        self.ps.push(P {
            child,
            sock: sv[0],
            alive: true,
            pending: None,
            fds,
            stdin,
            stdin_pipe,
            stdout_pipe,
            stderr_pipe,
            out: ProcOut {
                exit: Exit::Code(0), stdout: vec![], stderr: vec![], stderr_tried: vec![], stdout_tried: vec![], read_from: BTreeMap::new(), denied: vec![], env_reads: vec![], nalloc: 0, npoint: 0,
                fired: vec![0; p.faults.len()], alloc_fired: 0, kill_step: None, stdin_left: 0, frag_hits: 0, sched_points: 0, thread_switches: 0,
            },
            counts: BTreeMap::new(),
            moved: BTreeMap::new(),
            frag_rng: Rng::new(p.frag.as_ref().map(|f| f.seed).unwrap_or(0)),
            eintr_run: 0,
            cwd: p.env.cwd.clone(),
        });
        self.await_request(idx);
    }

    /// Waits until the running program asks for something or ends.
    fn await_request(&mut self, i: usize) {
        let mut head = [0u8; 64];
        match recv_all(self.ps[i].sock, &mut head) {
            Recv::Done => {}
            Recv::Eof => return self.reap(i, None),
            Recv::Timeout => return self.reap(i, Some("no progress".into())),
        }
        let u32at = |o: usize| u32::from_le_bytes(head[o..o + 4].try_into().unwrap());
        let mut a = [0i64; 6];
        for (k, x) in a.iter_mut().enumerate() {
            *x = i64::from_le_bytes(head[8 + 8 * k..16 + 8 * k].try_into().unwrap());
        }
        let len = u32at(56) as usize;
        self.ps[i].out.npoint = u32at(60) as u64;
        let mut pay = vec![0u8; len];
        if len > 0 {
            match recv_all(self.ps[i].sock, &mut pay) {
                Recv::Done => {}
                Recv::Eof => return self.reap(i, None),
                Recv::Timeout => return self.reap(i, Some("no progress".into())),
            }
        }
        self.ps[i].out.nalloc = a[5] as u64;
        self.ps[i].pending = Some(Req { op: u32at(0), tid: u32at(4), a, pay });
    }

    fn answer(&mut self, i: usize, ret: i64, err: i32, pay: &[u8]) {
        let mut b = Vec::with_capacity(24 + pay.len());
        b.extend_from_slice(&ret.to_le_bytes());
        b.extend_from_slice(&err.to_le_bytes());
        b.extend_from_slice(&(pay.len() as u32).to_le_bytes());
        b.extend_from_slice(&self.clock.to_le_bytes());
        b.extend_from_slice(pay);
        send_all(self.ps[i].sock, &b);
        self.await_request(i);
    }

    fn close_ends(&mut self, i: usize) {
        let (a, b, c) = (self.ps[i].stdin_pipe.take(), self.ps[i].stdout_pipe.take(), self.ps[i].stderr_pipe.take());
        if let Some(n) = a {
            self.pipes[n].readers -= 1;
        }
        for n in [b, c].into_iter().flatten() {
            self.pipes[n].writers -= 1;
        }
        self.ps[i].fds.clear();
        self.ps[i].out.stdin_left = self.ps[i].stdin.as_ref().map(|s| s.0.len()).unwrap_or(0);
    }

    fn reap(&mut self, i: usize, hang: Option<String>) {
        let p = &mut self.ps[i];
        if hang.is_some() {
            let _ = p.child.kill();
        }
        let st = p.child.wait().expect("wait");
        p.alive = false;
        p.pending = None;
        unsafe { libc::close(p.sock) };
        p.out.exit = match hang {
            Some(h) => Exit::Hang(h),
            None => match (st.code(), st.signal()) {
                (Some(c), _) => Exit::Code(c),
                (_, Some(s)) if s == libc::SIGXCPU => Exit::Hang("processor time".into()),
                (_, Some(s)) => Exit::Signal(s),
                _ => Exit::Code(-1),
            },
        };
        self.close_ends(i);
    }

    fn kill(&mut self, i: usize, why: Exit) {
        let p = &mut self.ps[i];
        let _ = p.child.kill();
        let _ = p.child.wait();
        unsafe { libc::close(p.sock) };
        p.alive = false;
        p.pending = None;
        p.out.kill_step = Some(self.step);
        p.out.exit = why;
        self.close_ends(i);
    }

    fn run(&mut self, switches: &[(u64, usize)]) -> u64 {
        let mut cur = 0usize;
        let mut sp = 0;
        let mut nsw = 0;
        let mut sched = 0u64;
        let n = self.ps.len();
        let mut blocked = vec![false; n];
        loop {
            if !self.ps.iter().any(|p| p.alive) {
                return nsw;
            }
            sched += 1;
            let mut want = cur;
            while sp < switches.len() && switches[sp].0 <= sched {
                if switches[sp].1 < n {
                    want = switches[sp].1;
                }
                sp += 1;
            }
            if !self.ps[want].alive || blocked[want] {
                // the next one that can run
                match (1..=n).map(|d| (want + d) % n).find(|i| self.ps[*i].alive && !blocked[*i]) {
                    Some(i) => want = i,
                    None => {
                        for i in 0..n {
                            if self.ps[i].alive {
                                let (_, obj) = self.describe(i);
                                self.kill(i, Exit::Blocked(obj));
                            }
                        }
                        return nsw;
                    }
                }
            }
            if want != cur {
                nsw += 1;
                self.hash = mix(self.hash ^ (0x5157 + want as u64));
                cur = want;
            }
            if self.step > STEP_LIMIT {
                for i in 0..n {
                    if self.ps[i].alive {
                        self.kill(i, Exit::Hang("step bound".into()));
                    }
                }
                return nsw;
            }
            if self.serve(cur) {
                for b in blocked.iter_mut() {
                    *b = false;
                }
            } else {
                blocked[cur] = true;
            }
        }
    }

    /// Name and object of the pending request.
    fn describe(&self, i: usize) -> (&'static str, String) {
        let p = &self.ps[i];
        let r = p.pending.as_ref().unwrap();
        let op = OPS.get(r.op as usize).copied().unwrap_or("?");
        let fdobj = |fd: i64| p.fds.get(&(fd as i32)).map(|o| o.borrow().path.clone()).unwrap_or_else(|| "?".into());
        let obj = match op {
            "close" | "read" | "write" | "lseek" | "fstat" | "ftruncate" | "fsync" | "fchmod" | "readdir" | "dup" | "fallocate" | "flock" | "isatty" => fdobj(r.a[0]),
            "copyrange" | "sendfile" => fdobj(r.a[2]),
            "open" | "stat" | "truncate" | "unlink" | "readlink" | "realpath" | "mkdir" | "rmdir" | "chmod" | "chown" | "access" | "chdir" => {
                let path = cstr(&r.pay);
                let base = if op == "truncate" || op == "realpath" || op == "chdir" { p.cwd.clone() } else { self.base(i, r.a[0]) };
                self.name_path(&Vfs::absolute(&base, path))
            }
            "rename" | "link" | "symlink" => {
                let mut it = r.pay.split(|c| *c == 0);
                let a = String::from_utf8_lossy(it.next().unwrap_or(b"")).to_string();
                let b = String::from_utf8_lossy(it.next().unwrap_or(b"")).to_string();
                let base = self.base(i, if op == "symlink" { r.a[0] } else { r.a[1] });
                let _ = a;
                self.name_path(&Vfs::absolute(&base, &b))
            }
            "utimes" => if r.pay.is_empty() { fdobj(r.a[0]) } else { self.name_path(&Vfs::absolute(&self.base(i, r.a[0]), cstr(&r.pay))) },
            _ => String::new(),
        };
        (op, obj)
    }
    fn name_path(&self, p: &str) -> String {
        self.v.canonical(p).unwrap_or_else(|| p.to_string())
    }
    fn base(&self, i: usize, dirfd: i64) -> String {
        let p = &self.ps[i];
        if dirfd as i32 == libc::AT_FDCWD {
            return p.cwd.clone();
        }
        p.fds.get(&(dirfd as i32)).map(|o| o.borrow().path.clone()).unwrap_or_else(|| p.cwd.clone())
    }

    /// Serves the pending request of one process. False if it has to wait.
    fn serve(&mut self, i: usize) -> bool {
        let spec = self.spec;
        let spec = &spec[i];
        let r = self.ps[i].pending.take().unwrap();
        self.ps[i].pending = Some(Req { op: r.op, tid: r.tid, a: r.a, pay: Vec::new() });
        // (describe needs the payload: put it back for the moment)
        self.ps[i].pending.as_mut().unwrap().pay = r.pay;
        let (op, obj) = self.describe(i);

        // Requests that are not system calls.
        match op {
            "hello" => {
                let h = hello_bytes(spec);
                self.ps[i].pending = None;
                self.hash = mix(self.hash ^ 0x48 ^ ((i as u64) << 8));
                self.answer(i, 0, 0, &h);
                return true;
            }
            "sched" => {
                let (at, to) = { let r = self.ps[i].pending.as_ref().unwrap(); (r.a[0], r.a[1]) };
                self.ps[i].out.thread_switches += 1;
                self.ps[i].out.sched_points = at as u64;
                self.hash = mix(self.hash ^ at as u64 ^ ((to as u64) << 40));
                self.ps[i].pending = None;
                self.answer(i, 0, 0, &[]);
                return true;
            }
            "denied" => {
                let s = String::from_utf8_lossy(&self.ps[i].pending.as_ref().unwrap().pay).to_string();
                self.ps[i].out.denied.push(s);
                self.ps[i].pending = None;
                self.answer(i, 0, 0, &[]);
                return true;
            }
            "getenv" => {
                let s = String::from_utf8_lossy(&self.ps[i].pending.as_ref().unwrap().pay).to_string();
                self.ps[i].out.env_reads.push(s);
                self.ps[i].pending = None;
                self.answer(i, 0, 0, &[]);
                return true;
            }
            "allocevt" => {
                let (kind, size) = { let r = self.ps[i].pending.as_ref().unwrap(); (r.a[0], r.a[1]) };
                self.ps[i].out.alloc_fired += 1;
                self.record(i, op, &obj, size, kind, 0, true);
                if kind == 2 {
                    self.kill(i, Exit::Killed);
                } else {
                    self.ps[i].pending = None;
                    self.answer(i, 0, 0, &[]);
                }
                return true;
            }
            "deadlock" => {
                self.record(i, op, &obj, 0, 0, 0, false);
                self.kill(i, Exit::Blocked("threads".into()));
                return true;
            }
            "steps" => {
                self.record(i, op, &obj, 0, 0, 0, false);
                self.kill(i, Exit::Hang("allocation bound".into()));
                return true;
            }
            _ => {}
        }

        // A blocked call does not count until it goes through.
        if self.would_block(i, op) {
            return false;
        }

        self.step += 1;
        self.clock += 700;
        if let Some(f) = &spec.frag {
            if f.lat > 0 {
                let x = self.ps[i].frag_rng.next() % (2 * f.lat);
                self.clock += x;
            }
        }
        self.v.cur_proc = i as i32;
        self.v.cur_step = self.step;
        self.v.clock = self.clock;

        // Which faults does this call meet?
        let mut acts: Vec<(usize, Act)> = Vec::new();
        {
            let p = &mut self.ps[i];
            let mut cnt = |o: &str, ob: &str| {
                let c = p.counts.entry((o.to_string(), ob.to_string())).or_insert(0);
                *c += 1;
                *c - 1
            };
            let n = [cnt(op, &obj), cnt("any", &obj), cnt(op, ""), cnt("any", "")];
            for (k, f) in spec.faults.iter().enumerate() {
                let c = match (f.at.op == "any", f.at.obj.is_empty()) {
                    (false, false) if f.at.op == op && f.at.obj == obj => n[0],
                    (true, false) if f.at.obj == obj => n[1],
                    (false, true) if f.at.op == op => n[2],
                    (true, true) => n[3],
                    _ => continue,
                };
                if c >= f.at.nth && (c - f.at.nth) < f.times {
                    acts.push((k, f.act.clone()));
                }
            }
        }

        let mut limit: Option<u64> = None;
        let mut errno: Option<i32> = None;
        let mut kill_after = false;
        let mut kill_mid: Option<u32> = None;
        let mut hit = false;
        let transfer = matches!(op, "read" | "write" | "copyrange" | "sendfile");
        for (k, a) in &acts {
            match a {
                Act::Errno(e) => {
                    if legal(op, *e) {
                        errno = Some(*e);
                        self.ps[i].out.fired[*k] += 1;
                        hit = true;
                    }
                }
                Act::Short(n) if transfer => {
                    limit = Some(limit.unwrap_or(u64::MAX).min((*n).max(1) as u64));
                    self.ps[i].out.fired[*k] += 1;
                    hit = true;
                }
                Act::FailFrom(n, e) if transfer => {
                    let key = (if op == "read" { "read" } else { "write" }.to_string(), obj.clone());
                    let done = self.ps[i].moved.get(&key).copied().unwrap_or(0);
                    if done >= *n {
                        errno = Some(*e);
                        self.ps[i].out.fired[*k] += 1;
                        hit = true;
                    } else {
                        limit = Some(limit.unwrap_or(u64::MAX).min(*n - done));
                    }
                }
                Act::KillBefore => {
                    self.ps[i].out.fired[*k] += 1;
                    self.record(i, op, &obj, -1, 0, 0, true);
                    self.kill(i, Exit::Killed);
                    return true;
                }
                Act::KillAfter => {
                    self.ps[i].out.fired[*k] += 1;
                    kill_after = true;
                    hit = true;
                }
                Act::KillMid(n) => {
                    self.ps[i].out.fired[*k] += 1;
                    kill_mid = Some(*n);
                    hit = true;
                }
                Act::Event(v) => {
                    self.ps[i].out.fired[*k] += 1;
                    hit = true;
                    for d in v {
                        disk_act(self.v, d);
                    }
                }
                Act::Delay(ns) => {
                    self.ps[i].out.fired[*k] += 1;
                    hit = true;
                    self.clock += *ns;
                }
                _ => {}
            }
        }
        if let Some(f) = &spec.frag {
            let p = &mut self.ps[i];
            if transfer || op == "open" {
                if f.eintr > 0 && op != "copyrange" && op != "sendfile" && errno.is_none() && p.eintr_run < 3 && p.frag_rng.chance(f.eintr) {
                    p.eintr_run += 1;
                    p.out.frag_hits += 1;
                    errno = Some(EINTR);
                } else {
                    p.eintr_run = 0;
                }
                let m = if op == "read" { f.rmax } else { f.wmax };
                if transfer && m > 0 {
                    let n = 1 + p.frag_rng.below(m as usize) as u64;
                    p.out.frag_hits += 1;
                    limit = Some(limit.unwrap_or(u64::MAX).min(n));
                }
            }
        }
        if let (Some(n), true) = (kill_mid, op == "write" || op == "copyrange" || op == "sendfile") {
            if n > 0 {
                let r = self.ps[i].pending.take().unwrap();
                let _ = self.call(i, op, &obj, &r, Some(n as u64));
                self.ps[i].pending = Some(r);
            }
            self.record(i, op, &obj, -2, n as i64, 0, true);
            self.kill(i, Exit::Killed);
            return true;
        }

        let r = self.ps[i].pending.take().unwrap();
        if op == "write" && (obj == "stderr" || obj == "stdout") {
            let p = &mut self.ps[i];
            let tried = if obj == "stderr" { &mut p.out.stderr_tried } else { &mut p.out.stdout_tried };
            // a call repeated after EINTR or a partial write tries the same bytes again
            if errno != Some(EINTR) && errno != Some(0) {
                let n = match (errno, limit) {
                    (None, Some(l)) => (l as usize).min(r.pay.len()),
                    _ => r.pay.len(),
                };
                tried.extend_from_slice(&r.pay[..n]);
            }
        }
        let (ret, err, pay) = match errno {
            // accepts nothing
            Some(0) => (0, 0, vec![]),
            Some(e) => (-1, e, vec![]),
            None => match self.call(i, op, &obj, &r, limit) {
                Reply::Ok(n, b) => (n, 0, b),
                Reply::Err(e) => (-1, e, vec![]),
                Reply::Block => unreachable!("blocking was checked before"),
                Reply::Kill => {
                    self.ps[i].pending = Some(r);
                    self.kill(i, Exit::Killed);
                    return true;
                }
            },
        };
        if transfer && ret > 0 {
            let key = (if op == "read" { "read" } else { "write" }.to_string(), obj.clone());
            *self.ps[i].moved.entry(key).or_insert(0) += ret as u64;
        }
        if op == "read" && ret > 0 {
            self.ps[i].out.read_from.entry(obj.clone()).or_default().extend_from_slice(&pay);
        }
        let arg = match op {
            "open" => r.a[1],
            "read" | "ftruncate" => r.a[1],
            "write" => r.pay.len() as i64,
            _ => 0,
        };
        self.ps[i].out.nalloc = r.a[5] as u64;
        let tid = r.tid;
        self.record_t(i, tid, op, &obj, arg, ret, err, hit);
        if kill_after {
            self.ps[i].pending = Some(r);
            self.kill(i, Exit::Killed);
            return true;
        }
        self.answer(i, ret, err, &pay);
        true
    }

    fn record(&mut self, i: usize, op: &'static str, obj: &str, arg: i64, ret: i64, err: i32, fault: bool) {
        self.record_t(i, 0, op, obj, arg, ret, err, fault)
    }
    fn record_t(&mut self, i: usize, tid: u32, op: &'static str, obj: &str, arg: i64, ret: i64, err: i32, fault: bool) {
        let h = crate::rng::hash_bytes(obj.as_bytes()) ^ mix(arg as u64) ^ mix(ret as u64 ^ 0x77) ^ mix((err as u64) << 9) ^ ((i as u64) << 32) ^ ((tid as u64) << 40)
            ^ crate::rng::hash_bytes(op.as_bytes());
        self.hash = mix(self.hash.wrapping_mul(31) ^ h);
        let nalloc = self.ps[i].out.nalloc;
        self.trace.push(OpRec { proc: i, tid, op, obj: obj.to_string(), arg, ret, err, nalloc, step: self.step, fault });
    }

    fn would_block(&self, i: usize, op: &str) -> bool {
        let p = &self.ps[i];
        let r = p.pending.as_ref().unwrap();
        let t = match p.fds.get(&(r.a[0] as i32)) {
            Some(o) => o.borrow().target.clone(),
            None => return false,
        };
        match (op, t) {
            ("read", Target::Stdin) => {
                if let Some(n) = p.stdin_pipe {
                    let pp = &self.pipes[n];
                    return pp.buf.is_empty() && pp.writers > 0;
                }
                match &p.stdin {
                    Some((b, InEnd::Stall)) => b.is_empty(),
                    _ => false,
                }
            }
            ("write", Target::Stdout) | ("write", Target::Stderr) => {
                let n = if p.fds[&(r.a[0] as i32)].borrow().target == Target::Stdout { p.stdout_pipe } else { p.stderr_pipe };
                match n {
                    Some(n) => self.pipes[n].readers > 0 && self.pipes[n].buf.len() >= self.pipes[n].cap,
                    None => false,
                }
            }
            _ => false,
        }
    }

    fn sink_write(&mut self, i: usize, t: &Target, data: &[u8]) -> Reply {
        let n = if *t == Target::Stdout { self.ps[i].stdout_pipe } else { self.ps[i].stderr_pipe };
        match n {
            Some(n) => {
                let p = &mut self.pipes[n];
                if p.readers == 0 {
                    return Reply::Err(EPIPE);
                }
                let room = p.cap - p.buf.len();
                if room == 0 {
                    return Reply::Block;
                }
                let k = room.min(data.len());
                p.buf.extend(&data[..k]);
                let o = &mut self.ps[i].out;
                if *t == Target::Stdout { &mut o.stdout } else { &mut o.stderr }.extend_from_slice(&data[..k]);
                Reply::Ok(k as i64, vec![])
            }
            None => {
                let o = &mut self.ps[i].out;
                if *t == Target::Stdout { &mut o.stdout } else { &mut o.stderr }.extend_from_slice(data);
                Reply::Ok(data.len() as i64, vec![])
            }
        }
    }

    fn stdin_read(&mut self, i: usize, n: usize) -> Reply {
        if let Some(k) = self.ps[i].stdin_pipe {
            let p = &mut self.pipes[k];
            let m = n.min(p.buf.len());
            return Reply::Ok(m as i64, p.buf.drain(..m).collect());
        }
        let (b, end) = self.ps[i].stdin.as_mut().unwrap();
        if b.is_empty() {
            return match end {
                InEnd::Err(e) => Reply::Err(*e),
                _ => Reply::Ok(0, vec![]),
            };
        }
        let m = n.min(b.len());
        Reply::Ok(m as i64, b.drain(..m).collect())
    }

    fn read_ofd(&mut self, i: usize, o: &Rc<RefCell<Ofd>>, n: usize, off: i64) -> Reply {
        let t = o.borrow().target.clone();
        match t {
            Target::Stdin => self.stdin_read(i, n),
            Target::Stdout | Target::Stderr => Reply::Err(EBADF),
            Target::Ino(ino) => {
                if o.borrow().flags & libc::O_ACCMODE == libc::O_WRONLY {
                    return Reply::Err(EBADF);
                }
                let node = &self.v.nodes[&ino];
                match node.kind {
                    Kind::Dir { .. } => Reply::Err(EISDIR),
                    Kind::Dev(Dev::Full) => Reply::Ok(n as i64, vec![0; n]),
                    Kind::Dev(_) => Reply::Ok(0, vec![]),
                    _ => {
                        let pos = if off >= 0 { off as u64 } else { o.borrow().pos };
                        let d = &node.data;
                        let a = (pos as usize).min(d.len());
                        let b = (a + n).min(d.len());
                        let out = d[a..b].to_vec();
                        if off < 0 {
                            o.borrow_mut().pos = pos + out.len() as u64;
                        }
                        Reply::Ok(out.len() as i64, out)
                    }
                }
            }
        }
    }

    fn write_ofd(&mut self, i: usize, o: &Rc<RefCell<Ofd>>, data: &[u8], off: i64) -> Reply {
        let t = o.borrow().target.clone();
        match t {
            Target::Stdin => Reply::Err(EBADF),
            Target::Stdout | Target::Stderr => self.sink_write(i, &t, data),
            Target::Ino(ino) => {
                let fl = o.borrow().flags;
                if fl & libc::O_ACCMODE == libc::O_RDONLY {
                    return Reply::Err(EBADF);
                }
                match self.v.nodes[&ino].kind {
                    Kind::Dev(Dev::Full) => return Reply::Err(ENOSPC),
                    Kind::Dev(_) => return Reply::Ok(data.len() as i64, vec![]),
                    Kind::Dir { .. } => return Reply::Err(EISDIR),
                    _ => {}
                }
                let pos = if off >= 0 {
                    off as u64
                } else if fl & libc::O_APPEND != 0 {
                    self.v.nodes[&ino].data.len() as u64
                } else {
                    o.borrow().pos
                };
                if data.is_empty() {
                    return Reply::Ok(0, vec![]);
                }
                match self.v.write(ino, pos, data) {
                    Ok(n) => {
                        if off < 0 {
                            o.borrow_mut().pos = pos + n as u64;
                        }
                        Reply::Ok(n as i64, vec![])
                    }
                    Err(e) => Reply::Err(e),
                }
            }
        }
    }

    fn stat_bytes(&self, i: usize, t: &Target) -> Vec<u8> {
        let f: [u64; 8] = match t {
            Target::Ino(ino) => {
                let n = &self.v.nodes[ino];
                let (ty, size) = match &n.kind {
                    Kind::File => (0o100000, n.report_size.unwrap_or(n.data.len() as u64)),
                    Kind::Dir { .. } => (0o040000, 4096),
                    Kind::Link(t) => (0o120000, t.len() as u64),
                    Kind::Dev(_) => (0o020000, 0),
                };
                [n.ino, ty | n.mode as u64, n.nlink as u64, size, n.mtime, n.uid as u64, 0x801, 0]
            }
            t => {
                let (k, ino) = match t {
                    Target::Stdin => (if self.ps[i].stdin_pipe.is_some() { "pipe" } else { "file" }, 900),
                    Target::Stdout => (kind_of(&self.spec[i].stdout), 901),
                    _ => (kind_of(&self.spec[i].stderr), 902),
                };
                let ty = match k {
                    "file" => 0o100000,
                    "tty" => 0o020000,
                    _ => 0o010000,
                };
                [ino, ty | 0o620, 1, 0, self.t0, 1000, 0x9, 0]
            }
        };
        f.iter().flat_map(|x| x.to_le_bytes()).collect()
    }

    fn call(&mut self, i: usize, op: &str, _obj: &str, r: &Req, limit: Option<u64>) -> Reply {
        let uid = self.spec[i].env.uid;
        let fd = r.a[0] as i32;
        let get = |k: &Kernel, fd: i64| k.ps[i].fds.get(&(fd as i32)).cloned();
        let path_at = |k: &Kernel, d: i64| Vfs::absolute(&k.base(i, d), cstr(&r.pay));
        let lim = |n: usize| limit.map(|l| n.min(l as usize)).unwrap_or(n);
        match op {
            "open" => {
                let path = path_at(self, r.a[0]);
                if cstr(&r.pay).is_empty() {
                    return Reply::Err(ENOENT);
                }
                let flags = r.a[1] as i32;
                if flags & libc::O_TMPFILE == libc::O_TMPFILE {
                    return Reply::Err(95);
                }
                match self.v.open(uid, &path, flags, r.a[2] as u32) {
                    Err(e) => Reply::Err(e),
                    Ok((ino, _)) => {
                        let target = match self.v.nodes[&ino].kind {
                            Kind::Dev(Dev::Stdin) => Target::Stdin,
                            Kind::Dev(Dev::Stdout) => Target::Stdout,
                            Kind::Dev(Dev::Stderr) => Target::Stderr,
                            _ => Target::Ino(ino),
                        };
                        let name = match target {
                            Target::Stdin => "stdin".into(),
                            Target::Stdout => "stdout".into(),
                            Target::Stderr => "stderr".into(),
                            _ => self.name_path(&path),
                        };
                        self.ps[i].fds.insert(r.a[3] as i32, Rc::new(RefCell::new(Ofd { target, pos: 0, flags, path: name })));
                        Reply::Ok(r.a[3], vec![])
                    }
                }
            }
            "close" => {
                self.ps[i].fds.remove(&fd);
                let still = |k: &Kernel, t: Target| k.ps[i].fds.values().any(|o| o.borrow().target == t);
                if !still(self, Target::Stdin) {
                    if let Some(n) = self.ps[i].stdin_pipe.take() {
                        self.pipes[n].readers -= 1;
                    }
                }
                if !still(self, Target::Stdout) {
                    if let Some(n) = self.ps[i].stdout_pipe.take() {
                        self.pipes[n].writers -= 1;
                    }
                }
                Reply::Ok(0, vec![])
            }
            "dup" => match get(self, r.a[0]) {
                Some(o) => {
                    self.ps[i].fds.insert(r.a[1] as i32, o);
                    Reply::Ok(r.a[1], vec![])
                }
                None => Reply::Err(EBADF),
            },
            "read" => match get(self, r.a[0]) {
                Some(o) => self.read_ofd(i, &o, lim(r.a[1] as usize), r.a[2]),
                None => Reply::Err(EBADF),
            },
            "write" => match get(self, r.a[0]) {
                Some(o) => {
                    let n = lim(r.pay.len());
                    self.write_ofd(i, &o, &r.pay[..n], r.a[1])
                }
                None => Reply::Err(EBADF),
            },
            "copyrange" | "sendfile" => {
                let (a, b) = match (get(self, r.a[0]), get(self, r.a[2])) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Reply::Err(EBADF),
                };
                let reg = |k: &Kernel, o: &Rc<RefCell<Ofd>>| match &o.borrow().target {
                    Target::Ino(n) => k.v.nodes[n].kind == Kind::File,
                    _ => false,
                };
                if !reg(self, &a) || (op == "copyrange" && !reg(self, &b)) {
                    return Reply::Err(EINVAL);
                }
                let n = lim(r.a[4] as usize);
                let pos0 = a.borrow().pos;
                let data = match self.read_ofd(i, &a, n, r.a[1]) {
                    Reply::Ok(_, d) => d,
                    e => return e,
                };
                if data.is_empty() {
                    return Reply::Ok(0, vec![]);
                }
                match self.write_ofd(i, &b, &data, r.a[3]) {
                    Reply::Ok(m, _) => {
                        if r.a[1] < 0 {
                            a.borrow_mut().pos = pos0 + m as u64;
                        }
                        Reply::Ok(m, vec![])
                    }
                    e => {
                        a.borrow_mut().pos = pos0;
                        e
                    }
                }
            }
            "lseek" => match get(self, r.a[0]) {
                Some(o) => {
                    let t = o.borrow().target.clone();
                    match t {
                        Target::Ino(n) => {
                            let base = match r.a[2] as i32 {
                                0 => 0,
                                1 => o.borrow().pos as i64,
                                2 => self.v.nodes[&n].data.len() as i64,
                                _ => return Reply::Err(EINVAL),
                            };
                            if base + r.a[1] < 0 {
                                return Reply::Err(EINVAL);
                            }
                            o.borrow_mut().pos = (base + r.a[1]) as u64;
                            Reply::Ok(base + r.a[1], vec![])
                        }
                        _ => Reply::Err(ESPIPE),
                    }
                }
                None => Reply::Err(EBADF),
            },
            "fstat" => match get(self, r.a[0]) {
                Some(o) => {
                    if r.a[1] == 1 {
                        let fl = o.borrow().flags & !(libc::O_CREAT | libc::O_TRUNC | libc::O_EXCL);
                        return Reply::Ok(fl as i64, vec![]);
                    }
                    let t = o.borrow().target.clone();
                    Reply::Ok(0, self.stat_bytes(i, &t))
                }
                None => Reply::Err(EBADF),
            },
            "stat" => {
                let p = path_at(self, r.a[0]);
                if cstr(&r.pay).is_empty() {
                    return Reply::Err(ENOENT);
                }
                match self.v.lookup(uid, &p, r.a[1] == 0) {
                    Err(e) => Reply::Err(e),
                    Ok(f) => match f.ino {
                        None => Reply::Err(ENOENT),
                        Some(n) => Reply::Ok(0, self.stat_bytes(i, &Target::Ino(n))),
                    },
                }
            }
            "access" => {
                let p = path_at(self, r.a[0]);
                match self.v.lookup(uid, &p, true) {
                    Err(e) => Reply::Err(e),
                    Ok(f) => match f.ino {
                        None => Reply::Err(ENOENT),
                        Some(n) if !self.v.allowed(n, uid, r.a[1] as u32 & 7) => Reply::Err(EACCES),
                        _ => Reply::Ok(0, vec![]),
                    },
                }
            }
            "ftruncate" => match get(self, r.a[0]) {
                Some(o) => match o.borrow().target {
                    Target::Ino(n) if self.v.nodes[&n].kind == Kind::File && o.borrow().flags & libc::O_ACCMODE != libc::O_RDONLY => {
                        let l = f_label(self.v, n);
                        self.v.truncate(n, r.a[1] as u64, &l);
                        Reply::Ok(0, vec![])
                    }
                    _ => Reply::Err(EINVAL),
                },
                None => Reply::Err(EBADF),
            },
            "truncate" => {
                let p = Vfs::absolute(&self.ps[i].cwd, cstr(&r.pay));
                match self.v.lookup(uid, &p, true) {
                    Ok(f) => match f.ino {
                        Some(n) if self.v.nodes[&n].kind == Kind::File => {
                            if !self.v.allowed(n, uid, 2) {
                                return Reply::Err(EACCES);
                            }
                            let l = f_label(self.v, n);
                            self.v.truncate(n, r.a[0] as u64, &l);
                            Reply::Ok(0, vec![])
                        }
                        Some(_) => Reply::Err(EISDIR),
                        None => Reply::Err(ENOENT),
                    },
                    Err(e) => Reply::Err(e),
                }
            }
            "fsync" => {
                if r.a[0] < 0 {
                    self.v.fsync(None);
                    return Reply::Ok(0, vec![]);
                }
                match get(self, r.a[0]) {
                    Some(o) => match o.borrow().target {
                        Target::Ino(n) => {
                            self.v.fsync(Some(n));
                            Reply::Ok(0, vec![])
                        }
                        _ => Reply::Err(EINVAL),
                    },
                    None => Reply::Err(EBADF),
                }
            }
            "rename" | "link" | "symlink" => {
                let mut it = r.pay.split(|c| *c == 0);
                let a = String::from_utf8_lossy(it.next().unwrap_or(b"")).to_string();
                let b = String::from_utf8_lossy(it.next().unwrap_or(b"")).to_string();
                let res = match op {
                    "rename" => {
                        let (a, b) = (Vfs::absolute(&self.base(i, r.a[0]), &a), Vfs::absolute(&self.base(i, r.a[1]), &b));
                        self.v.rename(uid, &a, &b, r.a[2] as u32)
                    }
                    "link" => {
                        let (a, b) = (Vfs::absolute(&self.base(i, r.a[0]), &a), Vfs::absolute(&self.base(i, r.a[1]), &b));
                        self.v.link(uid, &a, &b, r.a[2] as i32 & libc::AT_SYMLINK_FOLLOW != 0)
                    }
                    _ => {
                        let b = Vfs::absolute(&self.base(i, r.a[0]), &b);
                        self.v.symlink(uid, &a, &b)
                    }
                };
                unit(res)
            }
            "unlink" => unit(self.v.unlink(uid, &path_at(self, r.a[0]))),
            "rmdir" => unit(self.v.rmdir(uid, &path_at(self, r.a[0]))),
            "mkdir" => unit(self.v.mkdir(uid, &path_at(self, r.a[0]), r.a[1] as u32)),
            "readlink" => {
                let p = path_at(self, r.a[0]);
                match self.v.lookup(uid, &p, false) {
                    Err(e) => Reply::Err(e),
                    Ok(f) => match f.ino.map(|n| self.v.nodes[&n].kind.clone()) {
                        Some(Kind::Link(t)) => {
                            let n = t.len().min(r.a[1] as usize);
                            Reply::Ok(n as i64, t.as_bytes()[..n].to_vec())
                        }
                        Some(_) => Reply::Err(EINVAL),
                        None => Reply::Err(ENOENT),
                    },
                }
            }
            "realpath" => {
                let p = Vfs::absolute(&self.ps[i].cwd, cstr(&r.pay));
                match self.v.lookup(uid, &p, true) {
                    Err(e) => Reply::Err(e),
                    Ok(f) if f.ino.is_none() => Reply::Err(ENOENT),
                    Ok(f) => Reply::Ok(0, self.v.path_of(&f).into_bytes()),
                }
            }
            "chmod" => {
                let p = path_at(self, r.a[0]);
                match self.v.lookup(uid, &p, true).map(|f| f.ino) {
                    Ok(Some(n)) => unit(self.v.chmod_ino(uid, n, r.a[1] as u32)),
                    Ok(None) => Reply::Err(ENOENT),
                    Err(e) => Reply::Err(e),
                }
            }
            "fchmod" => match get(self, r.a[0]).map(|o| o.borrow().target.clone()) {
                Some(Target::Ino(n)) => unit(self.v.chmod_ino(uid, n, r.a[1] as u32)),
                Some(_) => Reply::Ok(0, vec![]),
                None => Reply::Err(EBADF),
            },
            "chown" => {
                let p = path_at(self, r.a[0]);
                match self.v.lookup(uid, &p, true).map(|f| f.ino) {
                    Ok(Some(n)) => unit(self.v.chown(uid, n, r.a[1] as u32)),
                    Ok(None) => Reply::Err(ENOENT),
                    Err(e) => Reply::Err(e),
                }
            }
            "utimes" => {
                let n = if r.pay.is_empty() {
                    match get(self, r.a[0]).map(|o| o.borrow().target.clone()) {
                        Some(Target::Ino(n)) => Some(n),
                        _ => None,
                    }
                } else {
                    self.v.lookup(uid, &path_at(self, r.a[0]), true).ok().and_then(|f| f.ino)
                };
                match n {
                    Some(n) => {
                        self.v.utimes(n);
                        Reply::Ok(0, vec![])
                    }
                    None => Reply::Err(ENOENT),
                }
            }
            "getcwd" => Reply::Ok(0, self.ps[i].cwd.clone().into_bytes()),
            "chdir" => {
                let p = Vfs::absolute(&self.ps[i].cwd, cstr(&r.pay));
                match self.v.lookup(uid, &p, true) {
                    Ok(f) if f.ino.is_some() => {
                        self.ps[i].cwd = self.v.path_of(&f);
                        Reply::Ok(0, vec![])
                    }
                    Ok(_) => Reply::Err(ENOENT),
                    Err(e) => Reply::Err(e),
                }
            }
            "readdir" => match get(self, r.a[0]).map(|o| o.borrow().target.clone()) {
                Some(Target::Ino(n)) if matches!(self.v.nodes[&n].kind, Kind::Dir { .. }) => {
                    let mut out = Vec::new();
                    for (name, ino) in self.v.entries(n) {
                        out.push(match self.v.nodes[ino].kind {
                            Kind::File => libc::DT_REG,
                            Kind::Dir { .. } => libc::DT_DIR,
                            Kind::Link(_) => libc::DT_LNK,
                            Kind::Dev(_) => libc::DT_CHR,
                        });
                        out.extend_from_slice(name.as_bytes());
                        out.push(0);
                    }
                    Reply::Ok(0, out)
                }
                Some(_) => Reply::Err(ENOTDIR),
                None => Reply::Err(EBADF),
            },
            "sleep" => {
                self.clock += r.a[0] as u64;
                Reply::Ok(0, vec![])
            }
            "fallocate" => match get(self, r.a[0]) {
                Some(o) => match o.borrow().target {
                    Target::Ino(n) => {
                        let end = (r.a[2] + r.a[3]) as u64;
                        let cur = self.v.nodes[&n].data.len() as u64;
                        if let Some(c) = self.v.capacity {
                            if end > cur && self.v.used() + end - cur > c {
                                return Reply::Err(ENOSPC);
                            }
                        }
                        if r.a[1] & 1 == 0 && end > cur {
                            let l = f_label(self.v, n);
                            self.v.truncate(n, end, &l);
                        }
                        Reply::Ok(0, vec![])
                    }
                    _ => Reply::Err(EINVAL),
                },
                None => Reply::Err(EBADF),
            },
            "flock" => Reply::Ok(0, vec![]),
            "isatty" => match get(self, r.a[0]).map(|o| o.borrow().target.clone()) {
                Some(Target::Stdout) => Reply::Ok((kind_of(&self.spec[i].stdout) == "tty") as i64, vec![]),
                Some(Target::Stderr) => Reply::Ok((kind_of(&self.spec[i].stderr) == "tty") as i64, vec![]),
                _ => Reply::Ok(0, vec![]),
            },
            _ => Reply::Err(38),
        }
    }

    fn finish(self) -> GroupOutParts {
        GroupOutParts {
            procs: self.ps.into_iter().map(|p| p.out).collect(),
            trace: self.trace,
            hash: self.hash,
            steps: self.step,
            sim_ns: self.clock - self.t0,
        }
    }
}

fn kind_of(o: &OutSpec) -> &str {
    match o {
        OutSpec::Sink { kind } => kind,
        OutSpec::Pipe(_) => "pipe",
    }
}

/// Errors a kernel may return for a call.
fn legal(op: &str, e: i32) -> bool {
    match op {
        // nothing accepted, without an error
        _ if e == 0 => op == "write",
        "close" | "getcwd" | "isatty" | "dup" | "flock" | "sleep" => false,
        "fstat" | "lseek" => e != EINTR,
        _ => true,
    }
}

fn unit(r: Result<(), i32>) -> Reply {
    match r {
        Ok(()) => Reply::Ok(0, vec![]),
        Err(e) => Reply::Err(e),
    }
}

fn cstr(b: &[u8]) -> &str {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    std::str::from_utf8(&b[..n]).unwrap_or("\u{fffd}")
}

enum Recv {
    Done,
    Eof,
    Timeout,
}
fn recv_all(fd: i32, buf: &mut [u8]) -> Recv {
    let mut n = 0;
    let t0 = std::time::Instant::now();
    while n < buf.len() {
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, 2000) };
        if r == 0 {
            if t0.elapsed().as_millis() as u64 > WALL_LIMIT_MS {
                return Recv::Timeout;
            }
            continue;
        }
        let r = unsafe { libc::recv(fd, buf[n..].as_mut_ptr() as *mut _, buf.len() - n, 0) };
        if r < 0 {
            let e = std::io::Error::last_os_error();
            if e.kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return Recv::Eof;
        }
        if r == 0 {
            return Recv::Eof;
        }
        n += r as usize;
    }
    Recv::Done
}
fn send_all(fd: i32, b: &[u8]) {
    let mut n = 0;
    while n < b.len() {
        let r = unsafe { libc::send(fd, b[n..].as_ptr() as *const _, b.len() - n, libc::MSG_NOSIGNAL) };
        if r < 0 {
            if std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return;
        }
        n += r as usize;
    }
}
