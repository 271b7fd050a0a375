//! Machines side by side.
use super::*;
use crate::common::*;
use crate::eng::*;
use crate::gen::*;
use crate::host::*;
use crate::hostile::*;
use crate::refmach::*;
use crate::rng::mix;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn parts() -> Vec<Part> { vec![("threads", 6, threads), ("interleaved", 4, interleaved), ("nested", 3, nested), ("moving", 3, moving)] }

/// one machine's life: what happens is decided by its own generator, what is seen is kept
struct Job { what: What, rng: Rng, seen: Vec<u64>, left: usize, ctx: Ctx }
enum What { Hostile(Session), Program(Box<Program>) }
struct Program { s: Setup, kind: Kind, e: Box<dyn Eng>, st: Shared, digest: u64, loaded: bool, ended: bool }

impl Program {
    fn look(&mut self, r: &str) {
        let n = self.e.mem_size() as u64;
        let m = self.e.load_bytes(0, n).map(|b| hash(&b)).unwrap_or(1);
        let f: Vec<u8> = (0..n / crate::refiss::PAGE).map(|p| self.e.flag(p).unwrap_or(0xee)).collect();
        let mut h = vec![self.digest, hash(r.as_bytes()), m, hash(&f), self.e.pc(), self.e.cycles(), self.e.lr()];
        for k in 0..32 { h.push(self.e.reg(k)); }
        let s = self.st.lock().unwrap();
        h.push(s.log_hash);
        h.push(s.events);
        drop(s);
        self.digest = mix(&h);
    }
    fn renew(&mut self, kind: Kind) {
        self.kind = kind;
        let st = self.s.state();
        st.lock().unwrap().keep_log = false;
        self.e = make(kind, &self.s.cfg, &st);
        self.st = st;
        self.loaded = false;
        self.ended = false;
    }
    fn op(&mut self, ctx: &mut Ctx, rng: &mut Rng) {
        if !self.loaded || self.ended {
            if self.loaded { if rng.chance(1, 2) { let _ = self.e.reset(0); } else { let k = *rng.pick(self.s.kinds()); self.renew(k); } }
            let r = self.e.load_program(&self.s.img.elf, &self.s.img.args);
            self.loaded = true;
            self.ended = r.is_err();
            self.look(&format!("{r:?}"));
            return;
        }
        match rng.below(12) {
            0 => { self.e.pause().interrupt(); self.look("interrupt"); }
            1 => { self.e.pause().free(); }
            2 | 3 => {
                // elsewhere from here on
                if let Ok(s) = self.e.snap1() {
                    let s: ckb_vm::snapshot::Snapshot = serde_json::from_slice(&s).unwrap();
                    let (c, cyc) = (*rng.pick(self.s.kinds()), self.e.cycles());
                    if rng.chance(1, 2) { self.renew(c); self.e.set_cycles(cyc); }
                    let r = self.e.resume1(&s);
                    self.loaded = true;
                    self.look(&format!("{r:?}"));
                    ctx.count("suspended-and-resumed");
                }
            }
            4 => self.look(""),
            _ => {
                let c = self.e.cycles();
                self.e.set_max_cycles(c.saturating_add(*rng.pick(&[200u64, 2000, 20_000, 200_000])));
                let r = self.e.run();
                self.ended = !matches!(class_of(&r), Class::Cycles | Class::Pause | Class::Host);
                self.look(&format!("{r:?}"));
                ctx.count("program-runs");
            }
        }
    }
}

impl Job {
    fn new(seed: u64, ops: usize) -> Job {
        let mut rng = Rng::new(seed);
        let ctx = Ctx::new("C23", "quick");
        let program = rng.chance(1, 2);
        let mut what = None;
        if program {
            let xlen = crate::eng::xlen(&mut rng, 8);
            let (isa, version) = isa_version(&mut rng);
            let exec = rng.chance(1, 4);
            if let Some(mut s) = setup_with(&mut rng, xlen, isa, version, |g: &mut G, r: &mut Rng| { g.size = *r.pick(&[15usize, 40]); g.long_loops = r.chance(1, 2); g.mem_bias = r.chance(1, 3); for c in [CALL_LOG, CALL_YIELD, CALL_PAUSE, CALL_LOAD, CALL_STORE] { g.calls.push(c); } if exec { g.calls.push(CALL_EXEC); } }) {
                s.cfg.max_cycles = 0;
                if matches!(s.cfg.costs, Costs::Zero | Costs::Hash { lo: 0, .. }) { s.cfg.costs = Costs::One; }
                let kind = *rng.pick(s.kinds());
                let st = s.state();
                st.lock().unwrap().keep_log = false;
                let e = make(kind, &s.cfg, &st);
                what = Some(What::Program(Box::new(Program { s, kind, e, st, digest: 0, loaded: false, ended: false })));
            }
        }
        let what = what.unwrap_or_else(|| { let mut s = Session::new(&mut rng); s.limit = 1e9; What::Hostile(s) });
        Job { what, rng, seen: vec![], left: ops, ctx }
    }
    fn kind(&self) -> u64 { match &self.what { What::Hostile(s) => s.e.kind() as u64, What::Program(p) => 100 + p.kind as u64 } }
    fn state(&self) -> Shared { match &self.what { What::Hostile(s) => s.st.clone(), What::Program(p) => p.st.clone() } }
    /// false when there is nothing left to do
    fn op(&mut self) -> bool {
        if self.left == 0 { return false; }
        self.left -= 1;
        let (ctx, rng) = (&mut self.ctx, &mut self.rng);
        let d = match &mut self.what {
            What::Hostile(s) => {
                if rng.chance(1, 12) { s.e.pause().interrupt(); }
                let r = catch_unwind(AssertUnwindSafe(|| { let _ = s.op(ctx, rng); s.digest }));
                match r { Ok(d) => if self.left % 6 == 0 { s.look() } else { d }, Err(_) => { self.left = 0; 99 } }
            }
            What::Program(p) => { p.op(ctx, rng); p.digest }
        };
        self.seen.push(d);
        true
    }
}
fn alone(seed: u64, ops: usize, ctx: &mut Ctx) -> (Vec<u64>, u64) {
    let mut j = Job::new(seed, ops);
    while j.op() {}
    for (k, v) in &j.ctx.stats { ctx.add(k, *v); }
    (j.seen.clone(), j.kind())
}
fn judge(ctx: &mut Ctx, rng: &mut Rng, how: &str, want: &[(Vec<u64>, u64)], got: &[(Vec<u64>, u64)], overlap: u64) -> V {
    for (k, (w, g)) in want.iter().zip(got).enumerate() {
        if w.0 != g.0 {
            let at = w.0.iter().zip(&g.0).position(|(a, b)| a != b).unwrap_or(w.0.len().min(g.0.len()));
            return Err(format!("{how}: machine {k} of {} behaves differently from operation {at} on than it does alone", want.len()));
        }
        ctx.add("operations-compared", w.0.len() as u64);
    }
    ctx.add("machines-compared", want.len() as u64);
    let mut h: Vec<u64> = got.iter().map(|g| g.1).collect();
    h.push(overlap);
    h.push(rng.below(2));
    ctx.seen(mix(&h));
    Ok(())
}
/// seeds of the machines: some are twins
fn seeds(rng: &mut Rng, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for _ in 0..n { let s = if !v.is_empty() && rng.chance(1, 4) { *rng.pick(&v) } else { rng.next() }; v.push(s); }
    v
}
struct Muted(bool);
impl Muted { fn new() -> Self { Muted(MUTE.with(|m| m.replace(true))) } }
impl Drop for Muted { fn drop(&mut self) { let o = self.0; MUTE.with(|m| m.set(o)); } }

/// each on a thread of its own, nothing shared
fn threads(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    let _m = Muted::new();
    let n = 2 + rng.us(5);
    let ops = *rng.pick(&[8usize, 15, 30]);
    let s = seeds(rng, n);
    let want: Vec<_> = s.iter().map(|x| alone(*x, ops, ctx)).collect();
    let go = Arc::new(AtomicBool::new(false));
    let running = Arc::new(AtomicU64::new(0));
    let jitter = rng.chance(1, 2);
    let hs: Vec<_> = s.iter().map(|seed| {
        let (seed, go, running, mut r) = (*seed, go.clone(), running.clone(), Rng::new(rng.next()));
        std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            let _m = Muted::new();
            // created before or after the others start running
            let early = r.chance(1, 2);
            let mut j = if early { Some(Job::new(seed, ops)) } else { None };
            while !go.load(Relaxed) { std::hint::spin_loop(); }
            let mut overlap = 0;
            let mut j = j.take().unwrap_or_else(|| Job::new(seed, ops));
            loop {
                if running.fetch_add(1, Relaxed) > 0 { overlap += 1; }
                let more = j.op();
                running.fetch_sub(1, Relaxed);
                if !more { break; }
                if jitter { match r.below(4) { 0 => std::thread::yield_now(), 1 => std::thread::sleep(Duration::from_micros(r.below(200))), _ => {} } }
            }
            let k = j.kind();
            let seen = std::mem::take(&mut j.seen);
            drop(j);
            (seen, k, overlap)
        }).unwrap()
    }).collect();
    go.store(true, Relaxed);
    let mut got = vec![];
    let mut overlap = 0;
    for h in hs { match h.join() { Ok((a, b, o)) => { got.push((a, b)); overlap += o; } Err(_) => { got.push((vec![], 0)); } } }
    ctx.add("operations-while-others-ran", overlap);
    judge(ctx, rng, "on threads", &want, &got, overlap)
}
/// one thread, any order
fn interleaved(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    let n = 2 + rng.us(4);
    let ops = *rng.pick(&[8usize, 15, 30]);
    let s = seeds(rng, n);
    let want: Vec<_> = s.iter().map(|x| alone(*x, ops, ctx)).collect();
    trail_clear();
    let mut jobs: Vec<Option<Job>> = s.iter().map(|_| None).collect();
    let mut got: Vec<(Vec<u64>, u64)> = vec![(vec![], 0); s.len()];
    let mut done = vec![false; s.len()];
    let mut order = 0u64;
    while done.iter().any(|d| !d) {
        let k = rng.us(n);
        if done[k] { continue; }
        order = order.wrapping_mul(31).wrapping_add(k as u64);
        let j = jobs[k].get_or_insert_with(|| Job::new(s[k], ops));
        if !j.op() { done[k] = true; let j = jobs[k].take().unwrap(); got[k] = (j.seen.clone(), j.kind()); }
    }
    ctx.count("interleavings");
    judge(ctx, rng, "interleaved", &want, &got, order)
}
/// from inside a system call of one machine, others go on
fn nested(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    let n = 2 + rng.us(3);
    let ops = *rng.pick(&[8usize, 15, 30]);
    let s = seeds(rng, n);
    let want: Vec<_> = s.iter().map(|x| alone(*x, ops, ctx)).collect();
    trail_clear();
    let inner: Arc<Mutex<Vec<Job>>> = Arc::new(Mutex::new(s[1..].iter().map(|x| Job::new(*x, ops)).collect()));
    let mut outer = Job::new(s[0], ops);
    let count = Arc::new(AtomicU64::new(0));
    let seed = rng.next();
    let hook = || -> Box<dyn FnMut() + Send> {
        let (i, mut r, c) = (inner.clone(), Rng::new(seed), count.clone());
        Box::new(move || {
            if !r.chance(1, 2) { return; }
            let mut v = i.lock().unwrap();
            let n = v.len();
            for _ in 0..1 + r.below(2) { if v[r.us(n)].op() { c.fetch_add(1, Relaxed); } }
        })
    };
    loop {
        let st = outer.state();
        if st.lock().unwrap().nested.is_none() { st.lock().unwrap().nested = Some(hook()); }
        if !outer.op() { break; }
    }
    let mut got = vec![(outer.seen.clone(), outer.kind())];
    outer.state().lock().unwrap().nested = None;
    drop(outer);
    for j in inner.lock().unwrap().iter_mut() { while j.op() {} got.push((j.seen.clone(), j.kind())); }
    let c = count.load(Relaxed);
    ctx.add("operations-inside-calls-of-another-machine", c);
    judge(ctx, rng, "nested", &want, &got, c)
}
/// machines handed from thread to thread
fn moving(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    let _m = Muted::new();
    let n = 3 + rng.us(5);
    let ops = *rng.pick(&[8usize, 15, 30]);
    let s = seeds(rng, n);
    let want: Vec<_> = s.iter().map(|x| alone(*x, ops, ctx)).collect();
    let queue: Arc<Mutex<Vec<(usize, Job)>>> = Arc::new(Mutex::new(s.iter().enumerate().map(|(k, x)| (k, Job::new(*x, ops))).collect()));
    let out: Arc<Mutex<Vec<(Vec<u64>, u64)>>> = Arc::new(Mutex::new(vec![(vec![], 0); n]));
    let left = Arc::new(AtomicU64::new(n as u64));
    let moves = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..2 + rng.us(3)).map(|_| {
        let (q, o, l, mv, mut r) = (queue.clone(), out.clone(), left.clone(), moves.clone(), Rng::new(rng.next()));
        std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            let _m = Muted::new();
            while l.load(SeqCst) > 0 {
                let x = { let mut q = q.lock().unwrap(); if q.is_empty() { None } else { let k = r.us(q.len()); Some(q.swap_remove(k)) } };
                let (k, mut j) = match x { Some(x) => x, None => { std::thread::yield_now(); continue } };
                mv.fetch_add(1, Relaxed);
                let mut more = true;
                for _ in 0..1 + r.below(3) { more = j.op(); if !more { break; } }
                if more { q.lock().unwrap().push((k, j)); } else { o.lock().unwrap()[k] = (j.seen.clone(), j.kind()); l.fetch_sub(1, SeqCst); }
            }
        }).unwrap()
    }).collect();
    for h in hs { if h.join().is_err() { left.store(0, SeqCst); } }
    let got = out.lock().unwrap().clone();
    ctx.add("hand-overs", moves.load(Relaxed));
    judge(ctx, rng, "handed between threads", &want, &got, moves.load(Relaxed))
}
