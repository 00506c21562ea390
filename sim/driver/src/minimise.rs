//! Makes a failing scenario small: drops faults, schedule entries, options, files and document
//! parts as long as the same class of violation stays.
use crate::ctx::Ctx;
use crate::props::{judge, parse_script, script, Job};
use crate::scenario::*;
use std::time::Instant;

pub struct Min<'a> {
    ctx: &'a mut Ctx,
    class: String,
    best: Scenario,
    start: Instant,
    tries: u32,
}

const MAX_TRIES: u32 = 1500;
const MAX_SECS: u64 = 60;

pub fn minimise(ctx: &mut Ctx, s: &Scenario, class: &str) -> Scenario {
    let mut m = Min { ctx, class: class.to_string(), best: s.clone(), start: Instant::now(), tries: 0 };
    loop {
        let before = m.best.clone();
        m.pass();
        if m.best == before || m.spent() {
            return m.best;
        }
    }
}

impl<'a> Min<'a> {
    fn spent(&self) -> bool {
        self.tries > MAX_TRIES || self.start.elapsed().as_secs() > MAX_SECS
    }
    fn try_(&mut self, c: Scenario) -> bool {
        if self.spent() || c == self.best {
            return false;
        }
        self.tries += 1;
        let v = judge(&c, self.ctx);
        if matches!(&v.fail, Some((k, _)) if *k == self.class) {
            self.best = c;
            true
        } else {
            false
        }
    }
    fn nprocs(&self) -> usize {
        self.best.procs().len()
    }
    fn edit(&mut self, i: usize, f: impl Fn(&mut Proc)) -> bool {
        let mut c = self.best.clone();
        let mut k = 0;
        for st in &mut c.steps {
            if let Step::Run { procs, .. } = st {
                for p in procs.iter_mut() {
                    if k == i {
                        f(p);
                    }
                    k += 1;
                }
            }
        }
        self.try_(c)
    }

    fn pass(&mut self) {
        // whole steps
        let mut i = 0;
        while i < self.best.steps.len() && self.best.steps.len() > 1 {
            let mut c = self.best.clone();
            c.steps.remove(i);
            if c.procs().is_empty() || !self.try_(c) {
                i += 1;
            }
        }
        // processes of one step that nobody is connected to
        let mut i = 0;
        loop {
            let mut c = self.best.clone();
            let mut gone = false;
            if let Some(Step::Run { procs, switches, pipes }) = c.steps.first_mut() {
                if pipes.is_empty() && procs.len() > 1 && i < procs.len() {
                    procs.remove(i);
                    switches.retain(|s| s.1 < procs.len());
                    gone = true;
                }
            }
            if !gone {
                break;
            }
            if !self.try_(c) {
                i += 1;
            }
        }
        // disk
        let mut i = 0;
        while i < self.best.files.len() {
            let mut c = self.best.clone();
            c.files.remove(i);
            if !self.try_(c) {
                i += 1;
            }
        }
        let mut c = self.best.clone();
        c.capacity = None;
        self.try_(c);
        for p in 0..self.nprocs() {
            self.edit(p, |p| p.frag = None);
            self.edit(p, |p| p.alloc = AllocPlan::default());
            self.edit(p, |p| {
                let c = p.env.cwd.clone();
                p.env = Env::plain();
                p.env.cwd = c;
            });
            self.edit(p, |p| p.env.vars.clear());
            self.edit(p, |p| p.env.answer_env = false);
            self.edit(p, |p| p.env.jitter = false);
            self.edit(p, |p| p.stdout = match &p.stdout { OutSpec::Sink { .. } => OutSpec::Sink { kind: "pipe".into() }, x => x.clone() });
            self.edit(p, |p| p.stderr = OutSpec::Sink { kind: "tty".into() });
            let mut i = 0;
            while i < self.best.procs()[p].faults.len() {
                if !self.edit(p, |p| { p.faults.remove(i); }) {
                    self.edit(p, |p| p.faults[i].times = 1);
                    i += 1;
                }
            }
            let mut n = self.best.procs()[p].threads.len();
            while n > 0 {
                let mut i = 0;
                while i < self.best.procs()[p].threads.len() {
                    if !self.edit(p, |p| { let e = (i + n).min(p.threads.len()); p.threads.drain(i..e); }) {
                        i += n;
                    }
                }
                n /= 2;
            }
            if let Prog::Cli(_) = &self.best.procs()[p].prog {
                let mut i = 0;
                loop {
                    let n = match &self.best.procs()[p].prog { Prog::Cli(c) => c.flags.len(), _ => 0 };
                    if i >= n {
                        break;
                    }
                    if !self.edit(p, |p| { p.cmd_mut().flags.remove(i); }) {
                        i += 1;
                    }
                }
                self.edit(p, |p| p.cmd_mut().spelling = 0);
                self.edit(p, |p| p.cmd_mut().multipass = false);
                self.edit(p, |p| p.cmd_mut().newline = false);
                self.edit(p, |p| p.cmd_mut().quiet = false);
                self.edit(p, |p| p.cmd_mut().copy_on_error = false);
                self.edit(p, |p| p.cmd_mut().allow_bigger = true);
            }
        }
        // the same options for all (runs that have to agree)
        let n = match &self.best.proc0().prog { Prog::Cli(c) => c.flags.len(), _ => 0 };
        for i in (0..n).rev() {
            let mut c = self.best.clone();
            for st in &mut c.steps {
                if let Step::Run { procs, .. } = st {
                    for p in procs.iter_mut() {
                        if let Prog::Cli(k) = &mut p.prog {
                            if i < k.flags.len() {
                                k.flags.remove(i);
                            }
                        }
                    }
                }
            }
            self.try_(c);
        }
        // schedule
        for si in 0..self.best.steps.len() {
            let len = |s: &Scenario| match &s.steps[si] { Step::Run { switches, .. } => switches.len(), _ => 0 };
            let mut n = len(&self.best);
            while n > 0 {
                let mut i = 0;
                while i < len(&self.best) {
                    let mut c = self.best.clone();
                    if let Step::Run { switches, .. } = &mut c.steps[si] {
                        let e = (i + n).min(switches.len());
                        switches.drain(i..e);
                    }
                    if !self.try_(c) {
                        i += n;
                    }
                }
                n /= 2;
            }
        }
        if self.best.note.starts_with("absolute:") && self.best.note != "absolute:valid" {
            return;
        }
        if self.best.prop == "C10" {
            self.jobs();
            return;
        }
        self.docs();
    }

    /// Documents: all places with the same content shrink together.
    fn docs(&mut self) {
        let mut seen: Vec<Vec<u8>> = Vec::new();
        for f in &self.best.files {
            if let FileSpec::File { data, .. } = f {
                seen.push(data.0.clone());
            }
        }
        for p in self.best.procs() {
            match &p.stdin {
                InSpec::Bytes { data } | InSpec::Fails { data, .. } | InSpec::Stalls { data } => seen.push(data.0.clone()),
                _ => {}
            }
        }
        seen.sort();
        seen.dedup();
        for d in seen {
            let mut cur = d;
            let mut n = (cur.len() + 1) / 2;
            while n > 0 && !self.spent() {
                let mut i = 0;
                while i < cur.len() && !self.spent() {
                    let mut nd = cur[..i].to_vec();
                    nd.extend_from_slice(&cur[(i + n).min(cur.len())..]);
                    let c = replace(&self.best, &cur, &nd);
                    if self.try_(c) {
                        cur = nd;
                    } else {
                        i += n;
                    }
                }
                n /= 2;
            }
        }
    }

    fn jobs(&mut self) {
        let get = |s: &Scenario| match &s.proc0().stdin {
            InSpec::Bytes { data } => parse_script(&data.0).unwrap_or_default(),
            _ => vec![],
        };
        let put = |s: &Scenario, j: &[Job]| {
            let mut c = s.clone();
            c.proc0_mut().stdin = InSpec::Bytes { data: Blob(script(j)) };
            c
        };
        let mut i = 0;
        loop {
            let mut j = get(&self.best);
            if i >= j.len() {
                break;
            }
            j.remove(i);
            let c = put(&self.best, &j);
            if j.is_empty() || !self.try_(c) {
                i += 1;
            }
        }
        for i in 0..get(&self.best).len() {
            loop {
                let mut j = get(&self.best);
                if j[i].flags.is_empty() {
                    break;
                }
                j[i].flags.pop();
                let c = put(&self.best, &j);
                if !self.try_(c) {
                    break;
                }
            }
            let mut n = get(&self.best)[i].doc.len() / 2;
            while n > 0 && !self.spent() {
                let mut k = 0;
                while k < get(&self.best)[i].doc.len() && !self.spent() {
                    let mut j = get(&self.best);
                    let e = (k + n).min(j[i].doc.len());
                    j[i].doc.drain(k..e);
                    let c = put(&self.best, &j);
                    if std::str::from_utf8(&j[i].doc).is_err() || !self.try_(c) {
                        k += n;
                    }
                }
                n /= 2;
            }
        }
    }
}

fn replace(s: &Scenario, a: &[u8], b: &[u8]) -> Scenario {
    let mut c = s.clone();
    for f in &mut c.files {
        if let FileSpec::File { data, .. } = f {
            if data.0 == a {
                data.0 = b.to_vec();
            }
        }
    }
    for st in &mut c.steps {
        if let Step::Run { procs, .. } = st {
            for p in procs.iter_mut() {
                match &mut p.stdin {
                    InSpec::Bytes { data } | InSpec::Fails { data, .. } | InSpec::Stalls { data } if data.0 == a => data.0 = b.to_vec(),
                    _ => {}
                }
            }
        }
    }
    c
}
