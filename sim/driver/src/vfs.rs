//! The simulated disk: inodes, directories, links, permissions, capacity, and what of it
//! would survive a loss of power.
use crate::rng::Rng;
use std::collections::BTreeMap;

pub type Ino = u64;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const ENXIO: i32 = 6;
pub const EBADF: i32 = 9;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const EBUSY: i32 = 16;
pub const EEXIST: i32 = 17;
pub const EXDEV: i32 = 18;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENFILE: i32 = 23;
pub const EMFILE: i32 = 24;
pub const EFBIG: i32 = 27;
pub const ENOSPC: i32 = 28;
pub const ESPIPE: i32 = 29;
pub const EROFS: i32 = 30;
pub const EPIPE: i32 = 32;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;
pub const ESTALE: i32 = 116;
pub const EDQUOT: i32 = 122;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dev {
    Null,
    Full,
    Stdin,
    Stdout,
    Stderr,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File,
    Dir { entries: BTreeMap<String, Ino>, parent: Ino },
    Link(String),
    Dev(Dev),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub ino: Ino,
    pub kind: Kind,
    pub mode: u32,
    pub uid: u32,
    pub nlink: u32,
    pub mtime: u64,
    pub data: Vec<u8>,
    /// Content that a loss of power cannot take away.
    pub durable: Vec<u8>,
    /// Size that stat reports, if it is not the true one.
    pub report_size: Option<u64>,
    /// First path of the file, used to name it in traces and fault plans.
    pub label: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    Create,
    Unlink,
    Rename,
    Write,
    Trunc,
    Chmod,
    Chown,
    Mkdir,
    Rmdir,
    Link,
    Symlink,
    Utimes,
}

/// One change of the disk.
#[derive(Clone, Debug)]
pub struct Mutation {
    pub step: u64,
    /// Process that did it, -1 for an external actor.
    pub proc: i32,
    pub what: What,
    pub ino: Ino,
    pub path: String,
    pub off: u64,
    pub len: u64,
}

#[derive(Clone, Debug)]
pub struct Vfs {
    pub nodes: BTreeMap<Ino, Inode>,
    pub root: Ino,
    next: Ino,
    /// Total bytes of file content the disk can hold.
    pub capacity: Option<u64>,
    pub log: Vec<Mutation>,
    pub cur_proc: i32,
    pub cur_step: u64,
    pub clock: u64,
    /// Directory contents after each change since the last sync, oldest first.
    ns_history: Vec<BTreeMap<Ino, BTreeMap<String, Ino>>>,
}

pub struct Found {
    pub parent: Ino,
    pub name: String,
    pub ino: Option<Ino>,
}

impl Vfs {
    pub fn new() -> Vfs {
        let mut v = Vfs {
            nodes: BTreeMap::new(),
            root: 2,
            next: 3,
            capacity: None,
            log: Vec::new(),
            cur_proc: -1,
            cur_step: 0,
            clock: 0,
            ns_history: Vec::new(),
        };
        v.nodes.insert(2, Inode {
            ino: 2, kind: Kind::Dir { entries: BTreeMap::new(), parent: 2 }, mode: 0o755, uid: 0, nlink: 2,
            mtime: 0, data: vec![], durable: vec![], report_size: None, label: "/".into(),
        });
        for (n, d) in [("null", Dev::Null), ("full", Dev::Full), ("stdin", Dev::Stdin), ("stdout", Dev::Stdout), ("stderr", Dev::Stderr)] {
            let dev = v.mkdir_p("/dev");
            let ino = v.alloc(Kind::Dev(d), 0o666, 0, &format!("/dev/{}", n));
            v.entries_mut(dev).insert(n.to_string(), ino);
        }
        v
    }

    fn alloc(&mut self, kind: Kind, mode: u32, uid: u32, label: &str) -> Ino {
        let ino = self.next;
        self.next += 1;
        let nlink = if matches!(kind, Kind::Dir { .. }) { 2 } else { 1 };
        self.nodes.insert(ino, Inode {
            ino, kind, mode, uid, nlink, mtime: self.clock, data: vec![], durable: vec![], report_size: None, label: label.to_string(),
        });
        ino
    }

    pub fn entries(&self, dir: Ino) -> &BTreeMap<String, Ino> {
        match &self.nodes[&dir].kind {
            Kind::Dir { entries, .. } => entries,
            _ => panic!("not a directory"),
        }
    }
    fn entries_mut(&mut self, dir: Ino) -> &mut BTreeMap<String, Ino> {
        match &mut self.nodes.get_mut(&dir).unwrap().kind {
            Kind::Dir { entries, .. } => entries,
            _ => panic!("not a directory"),
        }
    }
    fn is_dir(&self, i: Ino) -> bool {
        matches!(self.nodes[&i].kind, Kind::Dir { .. })
    }

    fn note(&mut self, what: What, ino: Ino, path: &str, off: u64, len: u64) {
        self.log.push(Mutation { step: self.cur_step, proc: self.cur_proc, what, ino, path: path.to_string(), off, len });
    }

    // ------------------------------------------------------------ permissions
    pub fn allowed(&self, ino: Ino, uid: u32, want: u32) -> bool {
        if uid == 0 {
            return true;
        }
        let n = &self.nodes[&ino];
        let bits = if n.uid == uid { n.mode >> 6 } else { n.mode } & 7;
        bits & want == want
    }

    // ------------------------------------------------------------ paths
    /// Absolute, with "." and ".." left in.
    pub fn absolute(cwd: &str, p: &str) -> String {
        if p.starts_with('/') {
            p.to_string()
        } else {
            format!("{}/{}", cwd.trim_end_matches('/'), p)
        }
    }

    /// Looks a path up. With `follow` a symbolic link in the last component is followed.
    pub fn lookup(&self, uid: u32, path: &str, follow: bool) -> Result<Found, i32> {
        let mut hops = 0;
        self.lookup_from(self.root, uid, path, follow, &mut hops)
    }

    fn lookup_from(&self, start: Ino, uid: u32, path: &str, follow: bool, hops: &mut u32) -> Result<Found, i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let mut dir = if path.starts_with('/') { self.root } else { start };
        let must_dir = path.ends_with('/');
        let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        if comps.is_empty() {
            return Ok(Found { parent: dir, name: ".".into(), ino: Some(dir) });
        }
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            if !self.is_dir(dir) {
                return Err(ENOTDIR);
            }
            if !self.allowed(dir, uid, 1) {
                return Err(EACCES);
            }
            if *c == ".." {
                dir = match &self.nodes[&dir].kind {
                    Kind::Dir { parent, .. } => *parent,
                    _ => unreachable!(),
                };
                if last {
                    return Ok(Found { parent: dir, name: ".".into(), ino: Some(dir) });
                }
                continue;
            }
            if c.len() > 255 {
                return Err(36);
            }
            let hit = self.entries(dir).get(*c).copied();
            let ino = match hit {
                None if last => {
                    return Ok(Found { parent: dir, name: c.to_string(), ino: None });
                }
                None => return Err(ENOENT),
                Some(i) => i,
            };
            if let Kind::Link(target) = &self.nodes[&ino].kind {
                if !last || follow || must_dir {
                    *hops += 1;
                    if *hops > 40 {
                        return Err(ELOOP);
                    }
                    let f = self.lookup_from(dir, uid, target, true, hops)?;
                    if last {
                        return Ok(f);
                    }
                    dir = f.ino.ok_or(ENOENT)?;
                    continue;
                }
            }
            if last {
                if must_dir && !self.is_dir(ino) {
                    return Err(ENOTDIR);
                }
                return Ok(Found { parent: dir, name: c.to_string(), ino: Some(ino) });
            }
            dir = ino;
        }
        unreachable!()
    }

    /// Canonical path of a directory.
    fn dir_path(&self, mut d: Ino) -> String {
        let mut parts = Vec::new();
        while d != self.root {
            let parent = match &self.nodes[&d].kind {
                Kind::Dir { parent, .. } => *parent,
                _ => unreachable!(),
            };
            let name = self.entries(parent).iter().find(|e| *e.1 == d).map(|e| e.0.clone()).unwrap_or("?".into());
            parts.push(name);
            d = parent;
        }
        parts.reverse();
        format!("/{}", parts.join("/"))
    }
    pub fn path_of(&self, f: &Found) -> String {
        let d = self.dir_path(f.parent);
        if f.name == "." {
            d
        } else {
            format!("{}/{}", d.trim_end_matches('/'), f.name)
        }
    }
    /// Canonical path with all links followed (it need not exist).
    pub fn canonical(&self, path: &str) -> Option<String> {
        self.lookup(0, path, true).ok().map(|f| self.path_of(&f))
    }

    // ------------------------------------------------------------ set-up and inspection
    pub fn mkdir_p(&mut self, path: &str) -> Ino {
        let mut d = self.root;
        let mut p = String::new();
        for c in path.split('/').filter(|c| !c.is_empty()) {
            p.push('/');
            p.push_str(c);
            d = match self.entries(d).get(c) {
                Some(i) => *i,
                None => {
                    let n = self.alloc(Kind::Dir { entries: BTreeMap::new(), parent: d }, 0o755, 1000, &p);
                    self.entries_mut(d).insert(c.to_string(), n);
                    n
                }
            };
        }
        d
    }
    fn split(path: &str) -> (&str, &str) {
        let i = path.rfind('/').unwrap();
        (&path[..i], &path[i + 1..])
    }
    pub fn put_file(&mut self, path: &str, data: &[u8], mode: u32, uid: u32) -> Ino {
        let (d, n) = Vfs::split(path);
        let dir = self.mkdir_p(d);
        let ino = self.alloc(Kind::File, mode, uid, path);
        let node = self.nodes.get_mut(&ino).unwrap();
        node.data = data.to_vec();
        node.durable = data.to_vec();
        self.entries_mut(dir).insert(n.to_string(), ino);
        ino
    }
    pub fn put_symlink(&mut self, path: &str, target: &str) -> Ino {
        let (d, n) = Vfs::split(path);
        let dir = self.mkdir_p(d);
        let ino = self.alloc(Kind::Link(target.to_string()), 0o777, 1000, path);
        self.entries_mut(dir).insert(n.to_string(), ino);
        ino
    }
    pub fn put_hardlink(&mut self, path: &str, to: &str) {
        let (d, n) = Vfs::split(path);
        let dir = self.mkdir_p(d);
        if let Some(i) = self.lookup(0, to, true).ok().and_then(|f| f.ino) {
            self.entries_mut(dir).insert(n.to_string(), i);
            self.nodes.get_mut(&i).unwrap().nlink += 1;
        }
    }
    pub fn put_mode(&mut self, path: &str, mode: u32) {
        if let Some(i) = self.lookup(0, path, true).ok().and_then(|f| f.ino) {
            self.nodes.get_mut(&i).unwrap().mode = mode;
        }
    }
    pub fn ino_of(&self, path: &str) -> Option<Ino> {
        self.lookup(0, path, true).ok().and_then(|f| f.ino)
    }
    pub fn content(&self, path: &str) -> Option<&[u8]> {
        let i = self.ino_of(path)?;
        match self.nodes[&i].kind {
            Kind::File => Some(&self.nodes[&i].data),
            _ => None,
        }
    }

    /// Everything reachable: path -> description. Used to compare disks.
    pub fn snapshot(&self) -> BTreeMap<String, Entry> {
        let mut out = BTreeMap::new();
        self.snap(self.root, String::new(), &mut out);
        out
    }
    fn snap(&self, d: Ino, path: String, out: &mut BTreeMap<String, Entry>) {
        for (n, i) in self.entries(d) {
            let p = format!("{}/{}", path, n);
            if p == "/dev" {
                continue;
            }
            let node = &self.nodes[i];
            let kind = match &node.kind {
                Kind::File => 'f',
                Kind::Dir { .. } => 'd',
                Kind::Link(_) => 'l',
                Kind::Dev(_) => 'c',
            };
            let data = match &node.kind {
                Kind::Link(t) => t.as_bytes().to_vec(),
                Kind::File => node.data.clone(),
                _ => vec![],
            };
            out.insert(p.clone(), Entry { kind, ino: *i, mode: node.mode, uid: node.uid, nlink: if kind == 'd' { 0 } else { node.nlink }, data });
            if kind == 'd' {
                self.snap(*i, p, out);
            }
        }
    }

    // ------------------------------------------------------------ operations
    pub fn used(&self) -> u64 {
        self.nodes.values().filter(|n| n.nlink > 0).map(|n| n.data.len() as u64).sum()
    }

    fn ns_changed(&mut self) {
        let mut m = BTreeMap::new();
        for (i, n) in &self.nodes {
            if let Kind::Dir { entries, .. } = &n.kind {
                m.insert(*i, entries.clone());
            }
        }
        self.ns_history.push(m);
    }
    fn remember_ns(&mut self) {
        if self.ns_history.is_empty() {
            self.ns_changed();
        }
    }

    /// Opens a path. Returns the inode and whether it was created.
    pub fn open(&mut self, uid: u32, path: &str, flags: i32, mode: u32) -> Result<(Ino, bool), i32> {
        let acc = flags & libc::O_ACCMODE;
        let nofollow = flags & libc::O_NOFOLLOW != 0;
        let excl = flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0;
        let f = self.lookup(uid, path, !(nofollow || excl))?;
        match f.ino {
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(ENOENT);
                }
                if path.ends_with('/') {
                    return Err(EISDIR);
                }
                if !self.allowed(f.parent, uid, 3) {
                    return Err(EACCES);
                }
                self.remember_ns();
                let p = self.path_of(&f);
                let ino = self.alloc(Kind::File, mode & 0o777 & !0o022, uid, &p);
                self.entries_mut(f.parent).insert(f.name.clone(), ino);
                self.note(What::Create, ino, &p, 0, 0);
                self.ns_changed();
                Ok((ino, true))
            }
            Some(i) => {
                if excl {
                    return Err(EEXIST);
                }
                let kind = self.nodes[&i].kind.clone();
                match kind {
                    Kind::Link(_) => return Err(ELOOP),
                    Kind::Dir { .. } => {
                        if acc != libc::O_RDONLY || flags & libc::O_CREAT != 0 {
                            return Err(EISDIR);
                        }
                    }
                    _ if flags & libc::O_DIRECTORY == libc::O_DIRECTORY => return Err(ENOTDIR),
                    _ => {}
                }
                let want = match acc {
                    libc::O_RDONLY => 4,
                    libc::O_WRONLY => 2,
                    _ => 6,
                };
                if !self.allowed(i, uid, want) {
                    return Err(EACCES);
                }
                if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY && self.nodes[&i].kind == Kind::File {
                    self.truncate(i, 0, &f_label(self, i));
                }
                Ok((i, false))
            }
        }
    }

    pub fn truncate(&mut self, i: Ino, len: u64, path: &str) {
        let clock = self.clock;
        let n = self.nodes.get_mut(&i).unwrap();
        let old = n.data.len() as u64;
        n.data.resize(len as usize, 0);
        n.mtime = clock;
        n.report_size = None;
        if old != len {
            self.note(What::Trunc, i, path, len, old);
        }
    }

    /// Returns bytes written, or ENOSPC if there was no room for any.
    pub fn write(&mut self, i: Ino, off: u64, data: &[u8]) -> Result<usize, i32> {
        let mut data = data;
        if let Some(cap) = self.capacity {
            let used = self.used();
            let cur = self.nodes[&i].data.len() as u64;
            let end = off + data.len() as u64;
            if end > cur {
                let free = cap.saturating_sub(used);
                let grow = end - cur;
                if grow > free {
                    let n = data.len() as u64 - (grow - free).min(data.len() as u64);
                    if n == 0 {
                        return Err(ENOSPC);
                    }
                    data = &data[..n as usize];
                }
            }
        }
        let clock = self.clock;
        let label = f_label(self, i);
        let n = self.nodes.get_mut(&i).unwrap();
        let end = off as usize + data.len();
        if n.data.len() < end {
            n.data.resize(end, 0);
        }
        n.data[off as usize..end].copy_from_slice(data);
        n.mtime = clock;
        n.report_size = None;
        let len = data.len();
        self.note(What::Write, i, &label, off, len as u64);
        Ok(len)
    }

    pub fn unlink(&mut self, uid: u32, path: &str) -> Result<(), i32> {
        let f = self.lookup(uid, path, false)?;
        let i = f.ino.ok_or(ENOENT)?;
        if self.is_dir(i) {
            return Err(EISDIR);
        }
        if !self.allowed(f.parent, uid, 3) {
            return Err(EACCES);
        }
        self.remember_ns();
        let p = self.path_of(&f);
        self.entries_mut(f.parent).remove(&f.name);
        self.nodes.get_mut(&i).unwrap().nlink -= 1;
        self.note(What::Unlink, i, &p, 0, 0);
        self.ns_changed();
        Ok(())
    }

    pub fn rename(&mut self, uid: u32, a: &str, b: &str, flags: u32) -> Result<(), i32> {
        let fa = self.lookup(uid, a, false)?;
        let ia = fa.ino.ok_or(ENOENT)?;
        let fb = self.lookup(uid, b, false)?;
        if fa.name == "." || fb.name == "." {
            return Err(EBUSY);
        }
        if !self.allowed(fa.parent, uid, 3) || !self.allowed(fb.parent, uid, 3) {
            return Err(EACCES);
        }
        self.remember_ns();
        let (pa, pb) = (self.path_of(&fa), self.path_of(&fb));
        if flags & 2 != 0 {
            let ib = fb.ino.ok_or(ENOENT)?;
            self.entries_mut(fa.parent).insert(fa.name.clone(), ib);
            self.entries_mut(fb.parent).insert(fb.name.clone(), ia);
            self.note(What::Rename, ib, &pa, 0, 0);
            self.note(What::Rename, ia, &pb, 0, 0);
            self.ns_changed();
            return Ok(());
        }
        if let Some(ib) = fb.ino {
            if flags & 1 != 0 {
                return Err(EEXIST);
            }
            if ib == ia {
                return Ok(());
            }
            match (self.is_dir(ia), self.is_dir(ib)) {
                (true, false) => return Err(ENOTDIR),
                (false, true) => return Err(EISDIR),
                (true, true) if !self.entries(ib).is_empty() => return Err(ENOTEMPTY),
                _ => {}
            }
            self.nodes.get_mut(&ib).unwrap().nlink -= 1;
            self.note(What::Unlink, ib, &pb, 0, 0);
        }
        self.entries_mut(fa.parent).remove(&fa.name);
        self.entries_mut(fb.parent).insert(fb.name.clone(), ia);
        if let Kind::Dir { parent, .. } = &mut self.nodes.get_mut(&ia).unwrap().kind {
            *parent = fb.parent;
        }
        self.note(What::Rename, ia, &pa, 0, 0);
        self.note(What::Rename, ia, &pb, 0, 0);
        self.ns_changed();
        Ok(())
    }

    pub fn link(&mut self, uid: u32, a: &str, b: &str, follow: bool) -> Result<(), i32> {
        let fa = self.lookup(uid, a, follow)?;
        let ia = fa.ino.ok_or(ENOENT)?;
        if self.is_dir(ia) {
            return Err(EPERM);
        }
        let fb = self.lookup(uid, b, false)?;
        if fb.ino.is_some() {
            return Err(EEXIST);
        }
        if !self.allowed(fb.parent, uid, 3) {
            return Err(EACCES);
        }
        self.remember_ns();
        let p = self.path_of(&fb);
        self.entries_mut(fb.parent).insert(fb.name.clone(), ia);
        self.nodes.get_mut(&ia).unwrap().nlink += 1;
        self.note(What::Link, ia, &p, 0, 0);
        self.ns_changed();
        Ok(())
    }

    pub fn symlink(&mut self, uid: u32, target: &str, path: &str) -> Result<(), i32> {
        let f = self.lookup(uid, path, false)?;
        if f.ino.is_some() {
            return Err(EEXIST);
        }
        if !self.allowed(f.parent, uid, 3) {
            return Err(EACCES);
        }
        self.remember_ns();
        let p = self.path_of(&f);
        let ino = self.alloc(Kind::Link(target.to_string()), 0o777, uid, &p);
        self.entries_mut(f.parent).insert(f.name.clone(), ino);
        self.note(What::Symlink, ino, &p, 0, 0);
        self.ns_changed();
        Ok(())
    }

    pub fn mkdir(&mut self, uid: u32, path: &str, mode: u32) -> Result<(), i32> {
        let f = self.lookup(uid, path, false)?;
        if f.ino.is_some() {
            return Err(EEXIST);
        }
        if !self.allowed(f.parent, uid, 3) {
            return Err(EACCES);
        }
        self.remember_ns();
        let p = self.path_of(&f);
        let ino = self.alloc(Kind::Dir { entries: BTreeMap::new(), parent: f.parent }, mode & 0o777 & !0o022, uid, &p);
        self.entries_mut(f.parent).insert(f.name.clone(), ino);
        self.note(What::Mkdir, ino, &p, 0, 0);
        self.ns_changed();
        Ok(())
    }

    pub fn rmdir(&mut self, uid: u32, path: &str) -> Result<(), i32> {
        let f = self.lookup(uid, path, false)?;
        let i = f.ino.ok_or(ENOENT)?;
        if !self.is_dir(i) {
            return Err(ENOTDIR);
        }
        if !self.entries(i).is_empty() {
            return Err(ENOTEMPTY);
        }
        if !self.allowed(f.parent, uid, 3) {
            return Err(EACCES);
        }
        self.remember_ns();
        let p = self.path_of(&f);
        self.entries_mut(f.parent).remove(&f.name);
        self.nodes.get_mut(&i).unwrap().nlink = 0;
        self.note(What::Rmdir, i, &p, 0, 0);
        self.ns_changed();
        Ok(())
    }

    pub fn chmod_ino(&mut self, uid: u32, i: Ino, mode: u32) -> Result<(), i32> {
        let n = self.nodes.get_mut(&i).unwrap();
        if uid != 0 && n.uid != uid {
            return Err(EPERM);
        }
        let old = n.mode;
        n.mode = mode & 0o7777;
        let label = n.label.clone();
        if old != mode & 0o7777 {
            self.note(What::Chmod, i, &label, 0, 0);
        }
        Ok(())
    }
    pub fn utimes(&mut self, i: Ino) {
        let l = self.nodes[&i].label.clone();
        self.note(What::Utimes, i, &l, 0, 0);
    }
    pub fn chown(&mut self, uid: u32, i: Ino, new: u32) -> Result<(), i32> {
        let n = self.nodes.get_mut(&i).unwrap();
        if new == u32::MAX || new == n.uid {
            return Ok(());
        }
        if uid != 0 {
            return Err(EPERM);
        }
        n.uid = new;
        let l = n.label.clone();
        self.note(What::Chown, i, &l, 0, 0);
        Ok(())
    }

    pub fn fsync(&mut self, i: Option<Ino>) {
        match i {
            Some(i) if !self.is_dir(i) => {
                let n = self.nodes.get_mut(&i).unwrap();
                n.durable = n.data.clone();
                self.ns_history.clear(); // the journal commits with it
            }
            Some(_) => self.ns_history.clear(),
            None => {
                for n in self.nodes.values_mut() {
                    n.durable = n.data.clone();
                }
                self.ns_history.clear();
            }
        }
    }

    /// The machine loses power: un-synced file content is lost, torn or kept, un-synced
    /// directory changes survive up to some point in their order.
    pub fn power_loss(&mut self, rng: &mut Rng) {
        if !self.ns_history.is_empty() {
            let k = rng.below(self.ns_history.len());
            let keep = self.ns_history[k].clone();
            for (i, e) in keep {
                if let Some(n) = self.nodes.get_mut(&i) {
                    if let Kind::Dir { entries, .. } = &mut n.kind {
                        *entries = e;
                    }
                }
            }
            self.ns_history.clear();
        }
        // link counts follow the directories
        let mut cnt: BTreeMap<Ino, u32> = BTreeMap::new();
        for n in self.nodes.values() {
            if let Kind::Dir { entries, .. } = &n.kind {
                for i in entries.values() {
                    *cnt.entry(*i).or_default() += 1;
                }
            }
        }
        for n in self.nodes.values_mut() {
            if matches!(n.kind, Kind::File) {
                n.nlink = cnt.get(&n.ino).copied().unwrap_or(0);
                if n.data != n.durable {
                    n.data = match rng.below(6) {
                        0 => n.durable.clone(),
                        1 => n.data.clone(),
                        2 => vec![0; n.data.len()], // size written back, data not
                        3 => {
                            let k = rng.below(n.data.len() + 1);
                            n.data[..k].to_vec()
                        }
                        4 => {
                            // some pages written back
                            let mut d = n.data.clone();
                            let mut p = 0;
                            while p < d.len() {
                                let e = (p + 512).min(d.len());
                                if rng.chance(50) {
                                    for k in p..e {
                                        d[k] = n.durable.get(k).copied().unwrap_or(0);
                                    }
                                }
                                p = e;
                            }
                            d
                        }
                        _ => vec![],
                    };
                }
                n.durable = n.data.clone();
            }
        }
    }
}

pub fn f_label(v: &Vfs, i: Ino) -> String {
    v.nodes[&i].label.clone()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub kind: char,
    pub ino: Ino,
    pub mode: u32,
    pub uid: u32,
    pub nlink: u32,
    pub data: Vec<u8>,
}
