//! Discrete-event world: simulated clock, network, disks, crashes.
use crate::core::*;
use std::cmp::Reverse;
use std::collections::BinaryHeap;

pub type Us = u64;
pub const MS: Us = 1_000;

#[derive(Clone, Debug, Default)]
pub struct FaultCfg {
    pub loss: usize,     // per mille
    pub dup: usize,      // per mille
    pub jitter: Us,      // maximal extra delay
    pub crash: usize,    // per mille, per handler invocation, mid-effects
    pub part: bool,      // partitions
    pub torn: bool,      // torn tail on crash during a disk write
    pub enospc: usize,   // per mille, per disk write
    pub slow: bool,      // one slow node
    pub skew: bool,      // clock rate differs by node
    pub max_crash: usize,
    pub until: Us, // no fault is injected after this time
}
impl FaultCfg {
    /// swarm style: every kind is on or off per run
    pub fn draw(cx: &mut Cx) -> Self {
        if cx.chance(1, 6) {
            // fault-free configuration, kept apart so that nothing hides behind the fault relaxations
            return FaultCfg { jitter: 5 * MS, until: 0, ..Default::default() };
        }
        let rates = [0usize, 0, 20, 100, 300];
        let crate_ = [0usize, 0, 15, 40, 120];
        FaultCfg {
            loss: *cx.ch.pick(&rates),
            dup: *cx.ch.pick(&rates),
            jitter: [1 * MS, 5 * MS, 40 * MS, 400 * MS][cx.choose(4)],
            crash: *cx.ch.pick(&crate_),
            part: cx.chance(1, 3),
            torn: cx.chance(1, 2),
            enospc: [0, 0, 0, 50][cx.choose(4)],
            slow: cx.chance(1, 4),
            skew: cx.chance(1, 3),
            max_crash: 1 + cx.choose(6),
            until: 400 * MS + cx.choose(8) as Us * 400 * MS,
        }
    }
}

pub enum Effect {
    Send { to: usize, data: Vec<u8> },
    /// append one record to the node's log and fsync it
    Persist { rec: Vec<u8> },
    Timer { after: Us, tag: u64 },
}

pub struct Io {
    pub now: Us,
    pub me: usize,
    pub boot: u32,
    pub fx: Vec<Effect>,
    /// decoded records found on disk (only meaningful in `boot`)
    pub recovered: Vec<Vec<u8>>,
}
impl Io {
    pub fn send(&mut self, to: usize, data: Vec<u8>) {
        self.fx.push(Effect::Send { to, data });
    }
    pub fn persist(&mut self, rec: Vec<u8>) {
        self.fx.push(Effect::Persist { rec });
    }
    pub fn timer(&mut self, after: Us, tag: u64) {
        self.fx.push(Effect::Timer { after, tag });
    }
}

pub trait Node {
    fn boot(&mut self, io: &mut Io, cx: &mut Cx) -> R;
    fn msg(&mut self, from: usize, data: &[u8], io: &mut Io, cx: &mut Cx) -> R;
    fn timer(&mut self, tag: u64, io: &mut Io, cx: &mut Cx) -> R;
    /// volatile state is gone
    fn crash(&mut self);
}

enum Ev {
    Deliver { from: usize, to: usize, data: Vec<u8> },
    Timer { node: usize, boot: u32, tag: u64 },
    Restart { node: usize },
    Partition,
    Heal,
    CrashNow { node: usize },
}

struct Q(BinaryHeap<Reverse<(Us, u64, usize)>>, Vec<Option<Ev>>);

/// Log of framed records: [len u32][sum u64][payload]; everything in `data` is durable.
#[derive(Clone, Default)]
pub struct Disk {
    pub data: Vec<u8>,
}
pub fn frame(rec: &[u8]) -> Vec<u8> {
    let mut v = (rec.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(&hbytes(rec).to_le_bytes());
    v.extend_from_slice(rec);
    v
}
impl Disk {
    /// recovery: the longest prefix of intact frames; the torn tail is cut off
    pub fn recover(&mut self) -> (Vec<Vec<u8>>, bool) {
        let mut out = vec![];
        let mut p = 0;
        loop {
            if p + 12 > self.data.len() {
                break;
            }
            let len = u32::from_le_bytes(self.data[p..p + 4].try_into().unwrap()) as usize;
            let sum = u64::from_le_bytes(self.data[p + 4..p + 12].try_into().unwrap());
            if p + 12 + len > self.data.len() {
                break;
            }
            let rec = self.data[p + 12..p + 12 + len].to_vec();
            if hbytes(&rec) != sum {
                break;
            }
            out.push(rec);
            p += 12 + len;
        }
        let torn = p < self.data.len();
        self.data.truncate(p);
        (out, torn)
    }
}

pub struct World {
    pub now: Us,
    seq: u64,
    q: Q,
    pub up: Vec<bool>,
    boot: Vec<u32>,
    pub disks: Vec<Disk>,
    side: Vec<usize>,
    cfg: FaultCfg,
    slow: Option<usize>,
    rate: Vec<u64>,
    crashes: usize,
    steps: u64,
    pub last_fault: Us,
}

impl World {
    pub fn new(n: usize, cfg: FaultCfg, cx: &mut Cx) -> Self {
        let slow = if cfg.slow { Some(cx.choose(n)) } else { None };
        let rate = (0..n)
            .map(|_| if cfg.skew { [100, 50, 80, 125, 200][cx.choose(5)] } else { 100 })
            .collect::<Vec<_>>();
        if cfg.slow {
            cx.fault("slow_node");
        }
        if rate.iter().any(|r| *r != 100) {
            cx.fault("clock_skew");
        }
        World {
            now: 0,
            seq: 0,
            q: Q(BinaryHeap::new(), vec![]),
            up: vec![false; n],
            boot: vec![0; n],
            disks: vec![Disk::default(); n],
            side: vec![0; n],
            cfg,
            slow,
            rate,
            crashes: 0,
            steps: 0,
            last_fault: 0,
        }
    }
    fn push(&mut self, at: Us, ev: Ev) {
        let id = self.q.1.len();
        self.q.1.push(Some(ev));
        self.q.0.push(Reverse((at, self.seq, id)));
        self.seq += 1;
    }
    pub fn until(&self) -> Us {
        self.cfg.until
    }
    fn faults_on(&self) -> bool {
        self.now < self.cfg.until
    }
    fn net(&mut self, cx: &mut Cx, from: usize, to: usize, data: Vec<u8>) {
        let on = self.faults_on();
        if on && self.side[from] != self.side[to] {
            cx.fault("partition_drop");
            return;
        }
        if on && cx.chance(self.cfg.loss, 1000) {
            cx.fault("msg_loss");
            return;
        }
        let jitter = if on { self.cfg.jitter } else { self.cfg.jitter.min(5 * MS) };
        let mut d = 100 + (cx.choose(16) as Us) * jitter / 16;
        if on && (self.slow == Some(from) || self.slow == Some(to)) {
            d *= 8;
        }
        if on && cx.chance(self.cfg.dup, 1000) {
            cx.fault("msg_dup");
            let d2 = 100 + (cx.choose(16) as Us) * jitter / 4;
            self.push(self.now + d2, Ev::Deliver { from, to, data: data.clone() });
        }
        self.push(self.now + d, Ev::Deliver { from, to, data });
    }
    fn crash_node<N: Node>(&mut self, cx: &mut Cx, nodes: &mut [N], i: usize) {
        if !self.up[i] {
            return;
        }
        self.up[i] = false;
        nodes[i].crash();
        self.crashes += 1;
        self.last_fault = self.now;
        let d = 1 * MS + (cx.choose(8) as Us) * 60 * MS;
        self.push(self.now + d, Ev::Restart { node: i });
        cx.log(|| format!("t={} node {} crashed", self.now, i));
    }
    fn apply<N: Node>(&mut self, cx: &mut Cx, nodes: &mut [N], i: usize, fx: Vec<Effect>) {
        let mut cut = usize::MAX;
        if self.faults_on() && self.crashes < self.cfg.max_crash && !fx.is_empty()
            && cx.chance(self.cfg.crash, 1000)
        {
            cut = cx.choose(fx.len() + 1);
            cx.fault("crash_mid_effects");
        }
        for (k, e) in fx.into_iter().enumerate() {
            if k == cut {
                if let Effect::Persist { rec } = e {
                    if self.cfg.torn {
                        let f = frame(&rec);
                        let n = match cx.choose(4) {
                            0 => 0,
                            1 => cx.choose(12.min(f.len())),
                            2 => f.len() - 1,
                            _ => cx.choose(f.len() + 1),
                        };
                        self.disks[i].data.extend_from_slice(&f[..n]);
                        if n > 0 && n < f.len() {
                            cx.fault("torn_write");
                        } else if n == f.len() {
                            cx.fault("durable_unacked_write");
                        }
                    } else {
                        cx.fault("lost_unsynced_write");
                    }
                }
                self.crash_node(cx, nodes, i);
                return;
            }
            match e {
                Effect::Send { to, data } => {
                    cx.log(|| format!("t={} {}->{} send k={} len={} h={:x}", self.now, i, to, data[0], data.len(), hbytes(&data)));
                    self.net(cx, i, to, data)
                }
                Effect::Persist { rec } => {
                    if self.faults_on() && self.crashes < self.cfg.max_crash + 2 && cx.chance(self.cfg.enospc, 1000) {
                        // disk full: nothing written, the node fail-stops before anything later
                        cx.fault("enospc");
                        self.crash_node(cx, nodes, i);
                        return;
                    }
                    cx.log(|| format!("t={} node {} persists {} bytes", self.now, i, rec.len()));
                    self.disks[i].data.extend_from_slice(&frame(&rec));
                }
                Effect::Timer { after, tag } => {
                    let d = (after * self.rate[i] / 100).max(1);
                    let boot = self.boot[i];
                    self.push(self.now + d, Ev::Timer { node: i, boot, tag });
                }
            }
        }
        if cut != usize::MAX && self.up[i] {
            self.crash_node(cx, nodes, i);
        }
    }
    fn io(&self, me: usize) -> Io {
        Io { now: self.now, me, boot: self.boot[me], fx: vec![], recovered: vec![] }
    }
    fn start<N: Node>(&mut self, cx: &mut Cx, nodes: &mut [N], i: usize) -> R {
        self.boot[i] += 1;
        self.up[i] = true;
        let (rec, torn) = self.disks[i].recover();
        if torn {
            cx.probe("recovered_past_torn_tail");
        }
        cx.log(|| format!("t={} node {} boots (#{}) with {} records", self.now, i, self.boot[i], rec.len()));
        let mut io = self.io(i);
        io.recovered = rec;
        nodes[i].boot(&mut io, cx)?;
        self.apply(cx, nodes, i, io.fx);
        Ok(())
    }
    /// Run until `done` or until simulated time `limit` / `max_steps`. Returns whether `done` held.
    pub fn run<N: Node>(
        &mut self,
        cx: &mut Cx,
        nodes: &mut [N],
        grace: Us,
        max_steps: u64,
        mut inv: impl FnMut(&mut Cx, &mut [N]) -> R<bool>,
    ) -> R<bool> {
        let n = nodes.len();
        for i in 0..n {
            self.start(cx, nodes, i)?;
        }
        if self.cfg.part && self.cfg.until > 0 {
            let k = 1 + cx.choose(2);
            for _ in 0..k {
                let at = (cx.choose(8) as Us) * self.cfg.until / 10;
                self.push(at, Ev::Partition);
            }
        }
        if self.cfg.crash > 0 {
            let k = cx.choose(3);
            for _ in 0..k {
                let at = (cx.choose(16) as Us) * 10 * MS + cx.choose(1000) as Us;
                let node = cx.choose(n);
                self.push(at, Ev::CrashNow { node });
            }
        }
        let mut done = false;
        while let Some(Reverse((at, _, id))) = self.q.0.pop() {
            self.now = at;
            self.steps += 1;
            cx.st.steps += 1;
            if at > self.cfg.until + grace || self.steps > max_steps {
                break;
            }
            let ev = self.q.1[id].take().unwrap();
            match ev {
                Ev::Deliver { from, to, data } => {
                    if !self.up[to] {
                        cx.fault("msg_to_down_node");
                        continue;
                    }
                    cx.log(|| format!("t={} {}->{} deliver k={} h={:x}", self.now, from, to, data[0], hbytes(&data)));
                    let mut io = self.io(to);
                    nodes[to].msg(from, &data, &mut io, cx)?;
                    self.apply(cx, nodes, to, io.fx);
                }
                Ev::Timer { node, boot, tag } => {
                    if !self.up[node] || self.boot[node] != boot {
                        continue;
                    }
                    let mut io = self.io(node);
                    nodes[node].timer(tag, &mut io, cx)?;
                    self.apply(cx, nodes, node, io.fx);
                }
                Ev::Restart { node } => {
                    cx.fault("restart");
                    self.start(cx, nodes, node)?;
                }
                Ev::Partition => {
                    if self.faults_on() {
                        for s in self.side.iter_mut() {
                            *s = cx.ch.choose(2);
                        }
                        cx.fault("partition");
                        let d = 50 * MS + (cx.choose(6) as Us) * 100 * MS;
                        self.push(self.now + d, Ev::Heal);
                        let s = self.side.clone();
                        cx.log(|| format!("t={} partition {:?}", at, s));
                    }
                }
                Ev::Heal => {
                    for s in self.side.iter_mut() {
                        *s = 0;
                    }
                    cx.fault("heal");
                }
                Ev::CrashNow { node } => {
                    if self.faults_on() && self.crashes < self.cfg.max_crash && self.up[node] {
                        cx.fault("crash_between_events");
                        self.crash_node(cx, nodes, node);
                    }
                }
            }
            if inv(cx, nodes)? {
                done = true;
                break;
            }
        }
        cx.st.sim_us += self.now;
        Ok(done)
    }
}
