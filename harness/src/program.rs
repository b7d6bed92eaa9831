//! Random programs over the whole public API: what to do at which frame, and
//! running them cut into blocks in different ways.
use crate::core::*;
use crate::eng::*;
use rawdio::prelude::*;
use rawdio::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Gain(usize),
    Pan,
    /// frequency, outputs, table: 0 sine, 1 harmonics, otherwise noise of this size
    Osc(f64, usize, usize),
    /// channels, length, seed
    Sampler(usize, usize, u64),
    /// inputs, outputs, kind: 0 empty, 1 unity, 2 splitter
    Mixer(usize, usize, usize),
    Biquad(usize, usize),
    Compressor(usize),
    Adsr(usize),
    /// channels, length, seed
    Conv(usize, usize, u64),
    /// channels, attack, release, rate in Hz
    Meter(usize, f64, f64, f64),
    Recorder(usize),
    /// channels, kind, threshold
    Shaper(usize, usize, f64),
}

impl Spec {
    pub fn io(&self) -> (usize, usize) {
        match *self {
            Spec::Gain(n) | Spec::Biquad(n, _) | Spec::Compressor(n) | Spec::Adsr(n) | Spec::Conv(n, _, _) | Spec::Shaper(n, _, _) => (n, n),
            Spec::Pan => (2, 2),
            Spec::Osc(_, n, _) | Spec::Sampler(n, _, _) => (0, n),
            Spec::Mixer(i, o, _) => (i, o),
            Spec::Meter(n, ..) => (n, n),
            Spec::Recorder(n) => (n, n),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Spec::Gain(_) => "gain",
            Spec::Pan => "pan",
            Spec::Osc(..) => "oscillator",
            Spec::Sampler(..) => "sampler",
            Spec::Mixer(..) => "mixer",
            Spec::Biquad(..) => "biquad",
            Spec::Compressor(_) => "compressor",
            Spec::Adsr(_) => "adsr",
            Spec::Conv(..) => "convolution",
            Spec::Meter(..) => "envelope",
            Spec::Recorder(_) => "recorder",
            Spec::Shaper(..) => "waveshaper",
        }
    }
    /// usual range, limits and default of every parameter; whether ratios matter
    pub fn params(&self) -> &'static [(f64, f64, f64, f64, f64)] {
        const G: (f64, f64, f64, f64, f64) = (-2.0, 2.0, -1e3, 1e3, 1.0);
        match self {
            Spec::Gain(_) => &[G],
            Spec::Pan => &[(-1.0, 1.0, -3.0, 3.0, 0.0)],
            Spec::Osc(..) => &[(20.0, 8000.0, 0.0, 1e5, 440.0), G],
            Spec::Biquad(..) => &[
                (30.0, 15_000.0, 0.0, 1e5, 1000.0),
                (0.1, 10.0, 0.0, 100.0, 0.707),
                (0.1, 4.0, 0.0, 1000.0, 1.0),
                (0.0, 2.0, -1.0, 1000.0, 1.0),
            ],
            Spec::Compressor(_) => &[
                (0.0, 100.0, -1.0, 1e4, 1.0),
                (0.0, 300.0, -1.0, 1e5, 10.0),
                (1.0, 20.0, 0.0, 1e12, 3.0),
                (-60.0, 6.0, -200.0, 100.0, 0.0),
                (0.0, 24.0, -1.0, 100.0, 0.0),
                (0.0, 2.0, -1.0, 100.0, 1.0),
                (0.0, 2.0, -1.0, 100.0, 0.0),
            ],
            Spec::Conv(..) => &[(0.0, 1.0, -1.0, 2.0, 1.0), (0.0, 1.0, -1.0, 2.0, 0.0)],
            Spec::Shaper(..) => &[(0.0, 1.0, -1.0, 2.0, 0.0), (0.0, 1.0, -1.0, 2.0, 1.0)],
            _ => &[],
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Now(f64),
    Set(f64, f64),
    Lin(f64, f64, f64),
    Exp(f64, f64, f64),
    Cancel,
    CancelAfter(f64),
}

#[derive(Clone, Debug)]
pub enum SOp {
    Start(f64, f64),
    StartNow,
    Stop(f64),
    StopNow,
    Loop(f64, f64),
    LoopAt(f64, f64, f64),
    CancelLoop,
    CancelLoopAt(f64),
    CancelAll,
}

#[derive(Clone, Debug)]
pub enum Act {
    Start,
    Stop,
    Create(usize, Spec),
    Drop(usize),
    Connect(usize, usize),
    ConnectCh(usize, usize, usize, usize, usize),
    Disconnect(usize, usize),
    ToInput(usize),
    ToOutput(usize),
    Param(usize, usize, Op),
    Sampler(usize, SOp),
    Note(usize, bool, f64),
    Adsr(usize, [f64; 4]),
    AdsrPart(usize, usize, f64),
    Level(usize, usize, usize, f64),
    Record(usize),
    StopRecord(usize),
    StopRecordAt(usize, f64),
    Notify,
}

#[derive(Clone, Debug)]
pub struct Program {
    pub sr: usize,
    pub maxch: usize,
    pub out_ch: usize,
    pub total: usize,
    pub input: Sig,
    /// frames rendered before anything else
    pub warp: usize,
    pub acts: Vec<(usize, Act)>,
    pub specs: Vec<Spec>,
    pub slots: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub hostile: bool,
    pub convolution: bool,
    pub drops: bool,
    pub max_nodes: usize,
    pub max_total: usize,
    /// whether discontinuous shapes are allowed
    pub steps: bool,
    /// notifications are collected now and then
    pub collect: bool,
    pub small: bool,
}

impl Default for Shape {
    fn default() -> Self {
        Self {
            hostile: false,
            convolution: true,
            drops: true,
            max_nodes: 12,
            max_total: 4000,
            steps: false,
            collect: true,
            small: false,
        }
    }
}

// ------------------------------------------------------------- generation
struct Gen<'a> {
    r: &'a mut Rng,
    sh: Shape,
    sr: usize,
    maxch: usize,
    total: usize,
    rank: Vec<u64>,
    alive: Vec<usize>,
    specs: Vec<Spec>,
    acts: Vec<(usize, Act)>,
    /// end of the last change, whether only positive values are used
    busy: BTreeMap<(usize, usize), (f64, bool)>,
    held: BTreeMap<(usize, usize), f64>,
    edges: Vec<(usize, usize)>,
    started: bool,
    eng: usize,
    pos: usize,
    meters: usize,
    sampler_sent: BTreeMap<usize, usize>,
}

impl Gen<'_> {
    fn push(&mut self, a: Act) {
        self.acts.push((self.pos, a));
    }
    fn ch(&mut self) -> usize {
        if self.r.chance(0.6) {
            self.maxch.min(2)
        } else {
            self.r.range(1, self.maxch)
        }
    }
    /// an engine time off the sample grid, in frames
    fn time(&mut self) -> f64 {
        let reach = if self.r.chance(0.5) { 100 } else { self.total };
        if self.r.chance(0.08) {
            // in the past
            return self.r.below(self.eng + 1) as f64 + 0.5;
        }
        if self.sh.hostile && self.r.chance(0.05) {
            return *self.r.pick(&[0.0, 1e9, 0.25, self.eng as f64]);
        }
        (self.eng + self.r.below(reach)) as f64 + 0.5
    }
    fn spec(&mut self) -> Spec {
        let ch = self.ch();
        let k = self.r.below(13);
        match k {
            0 => Spec::Gain(ch),
            1 if self.maxch >= 2 => Spec::Pan,
            1 | 2 => {
                let f = self.r.log_uniform(20.0, 15_000.0);
                let table = match self.r.below(4) {
                    0 | 1 => 0,
                    2 => 1,
                    _ => self.r.range(3, 300),
                };
                Spec::Osc(f, ch, table)
            }
            3 => {
                let fade = (self.sr as f64 * 0.05).ceil() as usize;
                let len = if self.r.chance(0.5) { self.r.range(1, fade) } else { self.r.range(fade, 5 * fade) };
                Spec::Sampler(ch, len, self.r.u64())
            }
            4 => {
                let o = self.ch();
                match self.r.below(4) {
                    0 => Spec::Mixer(ch, ch, 1),
                    1 if self.maxch >= 2 => Spec::Mixer(1, 2, 2),
                    _ => Spec::Mixer(ch, o, 0),
                }
            }
            5 | 6 => Spec::Biquad(ch, self.r.below(6)),
            7 => Spec::Compressor(ch),
            8 => Spec::Adsr(ch),
            9 if self.sh.convolution => {
                let l = match self.r.below(4) {
                    0 => self.r.range(1, 5),
                    1 => self.r.range(1, 300),
                    _ => self.r.log_uniform(1.0, 2000.0) as usize + 1,
                };
                Spec::Conv(ch, if self.sh.small { l.min(40) } else { l }, self.r.u64())
            }
            10 => {
                self.meters += 1;
                let t = |r: &mut Rng| if r.chance(0.3) { 0.0 } else { (r.log_uniform(1e-5, 0.3) * 1e6).round() / 1e6 };
                let (a, b) = (t(self.r), t(self.r));
                // few enough not to overflow, and clear of the sample grid
                loop {
                    let least = (self.total * ch) as f64 / 50.0 + 2.0;
                    let i = self.r.log_uniform(least, self.total as f64 + least);
                    let f = self.sr as f64 / i;
                    let i = self.sr as f64 / f;
                    let clear = |k: usize| {
                        let t = k as f64 * i;
                        (t - t.round()).abs() > 1e-6
                    };
                    if (1..60).all(clear) {
                        break Spec::Meter(ch, a, b, f);
                    }
                }
            }
            11 => Spec::Recorder(ch),
            12 => {
                let kinds = if self.sh.steps { 6 } else { 5 };
                let t = if self.r.chance(0.1) { 1.0 } else { self.r.uniform(0.0, 1.0) };
                Spec::Shaper(ch, self.r.below(kinds), t)
            }
            _ => Spec::Gain(ch),
        }
    }
    fn create(&mut self, spec: Spec, rank: u64) -> usize {
        let k = self.specs.len();
        self.specs.push(spec.clone());
        self.rank.push(rank);
        self.alive.push(k);
        self.push(Act::Create(k, spec));
        k
    }
    fn connect(&mut self, a: usize, b: usize) {
        if a == b {
            return;
        }
        let (a, b) = if self.rank[a] < self.rank[b] { (a, b) } else { (b, a) };
        if self.rank[a] == self.rank[b] {
            return;
        }
        let (o, i) = (self.specs[a].io().1, self.specs[b].io().0);
        if o == 0 || i == 0 {
            return;
        }
        self.edges.push((a, b));
        if self.r.chance(0.6) {
            self.push(Act::Connect(a, b));
        } else {
            let s = self.r.below(o);
            let d = self.r.below(i);
            let n = self.r.range(1, (o - s).min(i - d));
            self.push(Act::ConnectCh(a, b, s, d, n));
        }
    }
    fn pick_alive(&mut self) -> usize {
        let k = self.r.below(self.alive.len());
        self.alive[k]
    }
    fn some_node(&mut self) {
        let s = self.spec();
        let (i, o) = s.io();
        // sources early, sinks anywhere
        let rank = 1 + self.r.u64() / 4 + if i == 0 { 0 } else { 1 << 40 };
        let k = self.create(s, rank);
        if o > 0 {
            // towards the output
            let to = if self.r.chance(0.5) { 1 } else { self.pick_alive() };
            self.connect(k, to);
            if self.r.chance(0.2) {
                self.connect(k, 1);
            }
        }
        if i > 0 {
            let from = if self.r.chance(0.4) { 0 } else { self.pick_alive() };
            self.connect(from, k);
        }
        match self.specs[k] {
            Spec::Adsr(_) => {
                if self.r.chance(0.8) {
                    self.note(k);
                }
            }
            Spec::Sampler(..) => {
                if self.r.chance(0.8) {
                    self.sampler(k);
                }
            }
            Spec::Recorder(_) => {
                if self.r.chance(0.7) {
                    self.push(Act::Record(k));
                }
            }
            Spec::Mixer(_, _, 0) => {
                for _ in 0..3 {
                    self.level(k);
                }
            }
            _ => {}
        }
        for _ in 0..self.r.below(3) {
            self.param(k);
        }
    }
    fn note(&mut self, k: usize) {
        let t = self.time();
        let on = self.r.chance(0.6);
        self.push(Act::Note(k, on, t));
        if self.r.chance(0.5) {
            let l = self.r.below(self.total) as f64;
            self.push(Act::Note(k, false, t + l));
        }
    }
    fn level(&mut self, k: usize) {
        let (i, o) = self.specs[k].io();
        let (a, b) = (self.r.below(i), self.r.below(o));
        let v = if self.sh.hostile && self.r.chance(0.2) {
            *self.r.pick(&[0.0, 1.0, -1.0, 100.0, 1e-30])
        } else {
            self.r.uniform(-1.5, 1.5)
        };
        self.push(Act::Level(k, a, b, v));
    }
    fn sampler(&mut self, k: usize) {
        let sent = self.sampler_sent.entry(k).or_insert(0);
        if *sent > 20 {
            return;
        }
        *sent += 1;
        let Spec::Sampler(_, len, _) = self.specs[k] else { return };
        let fade = (self.sr as f64 * 0.05).ceil() as usize;
        // A quarter, an eighth and a half of a frame: no sum of event time, position and loop
        // points is a tie that the resolution of timestamps decides
        let t = self.time();
        let t = if t.fract() == 0.5 { t - 0.25 } else { t };
        let points = |r: &mut Rng| {
            let l = fade + 3 + r.below(fade * 2);
            (l + 4 < len).then(|| {
                let s = r.below(len - l - 2);
                (s as f64 + 0.5, (s + l) as f64 + 0.5)
            })
        };
        let op = match self.r.below(12) {
            0..=2 => {
                let p = if self.r.chance(0.5) { 0.0 } else { self.r.below(len + 3) as f64 + 0.125 };
                SOp::Start(t, p)
            }
            3 | 4 => SOp::StartNow,
            5 | 6 => SOp::Stop(t),
            7 => SOp::StopNow,
            8 => match points(self.r) {
                Some((a, b)) => SOp::Loop(a, b),
                None => SOp::StartNow,
            },
            9 => match points(self.r) {
                Some((a, b)) => SOp::LoopAt(t, a, b),
                None => SOp::Start(t, 0.0),
            },
            10 => {
                if self.r.chance(0.5) {
                    SOp::CancelLoop
                } else {
                    SOp::CancelLoopAt(t)
                }
            }
            _ => SOp::CancelAll,
        };
        self.push(Act::Sampler(k, op));
    }
    fn adsr(&mut self, k: usize) {
        let sr = self.sr as f64;
        let t = |r: &mut Rng| -> f64 {
            let x = match r.below(5) {
                0 => 0.0,
                1 => r.uniform(0.05, 1.0),
                _ => r.log_uniform(1.0, 2000.0) / sr,
            };
            (x * 1e9).round() / 1e9
        };
        let s = match self.r.below(4) {
            0 => 0.0,
            1 => 1.0,
            _ => self.r.f64(),
        };
        let a = [t(self.r), t(self.r), s, t(self.r)];
        if self.r.chance(0.5) {
            self.push(Act::Adsr(k, a));
        } else {
            let w = self.r.below(4);
            self.push(Act::AdsrPart(k, w, a[w]));
        }
    }
    fn param(&mut self, k: usize) {
        let ps = self.specs[k].params();
        if ps.is_empty() {
            return;
        }
        let p = self.r.below(ps.len());
        let (lo, hi, hlo, hhi, default) = ps[p];
        let positive_here = default > 0.0 && self.r.chance(0.5);
        let eng = self.eng as f64;
        let hostile = self.sh.hostile;
        let n = self.r.range(1, 3);
        for _ in 0..n {
            let (last, positive) = *self.busy.entry((k, p)).or_insert((-1.0, positive_here));
            let mut v = match self.r.below(if hostile { 8 } else { 5 }) {
                0 => *self.r.pick(&[lo, hi, default]),
                5 => *self.r.pick(&[hlo, hhi]),
                6 => self.r.uniform(hlo, hhi),
                _ => self.r.uniform(lo, hi),
            };
            if positive {
                v = v.abs().max(0.01);
            }
            let from = last.max(eng);
            let reach = if self.r.chance(0.5) { 100 } else { self.total };
            let s = from.floor() + self.r.below(reach) as f64 + 0.5;
            let s = if s <= from { s + 1.0 } else { s };
            let l = self.r.below(reach) as f64 + if hostile { 1.0 } else { 8.0 };
            // time has a resolution: a steep sweep of a rough table tells
            let rough = !hostile && p == 0 && matches!(self.specs[k], Spec::Osc(_, _, t) if t > 1);
            let op = match self.r.below(10) {
                0 | 1 if last < eng - 1.0 => {
                    self.busy.insert((k, p), (eng, positive));
                    Op::Now(v)
                }
                0..=3 => {
                    self.busy.insert((k, p), (s, positive));
                    Op::Set(v, s)
                }
                4..=6 if !rough => {
                    self.busy.insert((k, p), (s + l, positive));
                    Op::Lin(v, s, s + l)
                }
                7 if positive && !rough => {
                    self.busy.insert((k, p), (s + l, positive));
                    Op::Exp(v, s, s + l)
                }
                8 => Op::Cancel,
                9 => Op::CancelAfter(s),
                _ => {
                    self.busy.insert((k, p), (s, positive));
                    Op::Set(v, s)
                }
            };
            let before = *self.held.get(&(k, p)).unwrap_or(&default);
            let back = match op {
                Op::Set(_, s) if self.r.chance(0.25) => Some(s + 1.0 + self.r.below(reach.min(60)) as f64),
                _ => None,
            };
            if !matches!(op, Op::Cancel | Op::CancelAfter(_)) {
                self.held.insert((k, p), v);
            }
            self.push(Act::Param(k, p, op));
            // there and back again
            if let (Some(s), true) = (back, before != 0.0 || !positive) {
                self.held.insert((k, p), before);
                self.busy.insert((k, p), (s, positive));
                self.push(Act::Param(k, p, Op::Set(before, s)));
            }
        }
    }
    fn random_act(&mut self) {
        match self.r.below(20) {
            0 | 1 if self.specs.len() < self.sh.max_nodes => self.some_node(),
            2 if self.sh.drops && self.alive.len() > 3 => {
                let j = self.r.range(2, self.alive.len() - 1);
                let k = self.alive.remove(j);
                self.edges.retain(|e| e.0 != k && e.1 != k);
                self.push(Act::Drop(k));
            }
            3 | 4 => {
                let (a, b) = (self.pick_alive(), self.pick_alive());
                self.connect(a, b);
            }
            5 if !self.edges.is_empty() => {
                let j = self.r.below(self.edges.len());
                let (a, b) = self.edges[j];
                self.edges.retain(|e| *e != (a, b));
                self.push(Act::Disconnect(a, b));
            }
            6 => {
                if self.r.chance(0.2) {
                    if self.started {
                        self.push(Act::Stop);
                        self.started = false;
                    } else {
                        self.push(Act::Start);
                        self.started = true;
                    }
                } else if self.r.chance(0.1) {
                    let k = self.pick_alive();
                    if self.specs[k].io().1 > 0 {
                        self.push(Act::ToOutput(k));
                    }
                } else if self.r.chance(0.1) {
                    let k = self.pick_alive();
                    if self.specs[k].io().0 > 0 {
                        self.push(Act::ToInput(k));
                    }
                } else if self.sh.collect {
                    self.push(Act::Notify);
                }
            }
            _ => {
                let k = self.pick_alive();
                match self.specs[k] {
                    Spec::Sampler(..) => self.sampler(k),
                    Spec::Adsr(_) => {
                        if self.r.chance(0.3) {
                            self.adsr(k)
                        } else {
                            self.note(k)
                        }
                    }
                    Spec::Mixer(..) => self.level(k),
                    Spec::Recorder(_) => {
                        let t = self.time();
                        let a = match self.r.below(3) {
                            0 => Act::Record(k),
                            1 => Act::StopRecord(k),
                            _ => Act::StopRecordAt(k, t),
                        };
                        self.push(a);
                    }
                    _ => self.param(k),
                }
            }
        }
    }
}

pub fn generate(r: &mut Rng, sh: Shape) -> Program {
    let sr = rate(r);
    let maxch = if r.chance(0.2) { 1 } else { r.range(2, 5) };
    let total = r.range(sh.max_total / 20, sh.max_total);
    generate_in(r, sh, sr, maxch, total)
}

/// Add the nodes of another program to this one, to be created and used beside
/// its own but never connected to them or to the outside
pub fn with_bystanders(p: &Program, r: &mut Rng, sh: Shape) -> Program {
    let b = generate_in(r, sh, p.sr, p.maxch, p.total);
    let mut q = p.clone();
    let off = p.slots;
    let mut acts: Vec<(usize, usize, Act)> = p.acts.iter().map(|(t, a)| (*t, 0, a.clone())).collect();
    for (t, a) in b.acts {
        let mut a = a;
        match &mut a {
            Act::Start | Act::Stop | Act::Notify | Act::ToInput(_) | Act::ToOutput(_) => continue,
            Act::Connect(x, y) | Act::ConnectCh(x, y, ..) | Act::Disconnect(x, y) => {
                *x += off;
                *y += off;
            }
            Act::Create(k, _)
            | Act::Drop(k)
            | Act::Param(k, ..)
            | Act::Sampler(k, _)
            | Act::Note(k, ..)
            | Act::Adsr(k, _)
            | Act::AdsrPart(k, ..)
            | Act::Level(k, ..)
            | Act::Record(k)
            | Act::StopRecord(k)
            | Act::StopRecordAt(k, _) => *k += off,
        }
        // only where the program has a boundary itself
        let t = *p.acts.iter().map(|x| &x.0).rfind(|x| **x <= t).unwrap_or(&0);
        acts.push((t, r.below(2), a));
    }
    acts.sort_by_key(|a| a.0);
    // interleave, keeping the order of each
    let mut out: Vec<(usize, Act)> = Vec::new();
    let mut i = 0;
    while i < acts.len() {
        let t = acts[i].0;
        let j = acts[i..].iter().position(|a| a.0 != t).map(|j| i + j).unwrap_or(acts.len());
        let (own, other): (Vec<_>, Vec<_>) = acts[i..j].iter().cloned().partition(|a| mentions(&a.2).iter().all(|k| *k < off));
        let (mut own, mut other) = (own.into_iter().peekable(), other.into_iter().peekable());
        while own.peek().is_some() || other.peek().is_some() {
            let a = if other.peek().is_none() || (own.peek().is_some() && r.chance(0.5)) { own.next() } else { other.next() };
            out.push((t, a.unwrap().2));
        }
        i = j;
    }
    q.acts = out;
    q.slots += b.slots;
    q.specs.extend(b.specs);
    q
}

fn generate_in(r: &mut Rng, sh: Shape, sr: usize, maxch: usize, total: usize) -> Program {
    let warp = if r.chance(0.1) { r.log_uniform(1.0, 3e5) as usize } else { 0 };
    let in_ch = if r.chance(0.1) { 0 } else { r.range(1, maxch) };
    let amp = if sh.hostile { *r.pick(&[1.0f32, 1.0, 0.0, 1e-41, 1e4]) } else { 1.0 };
    let mut input = noise(r, in_ch, total);
    for c in input.iter_mut() {
        // bursts, so that things decay
        let gap = r.chance(0.5);
        let period = r.range(20, 1000);
        for (i, v) in c.iter_mut().enumerate() {
            *v *= amp;
            if gap && (i / period) % 2 == 1 {
                *v = 0.0;
            }
        }
    }
    if r.chance(0.4) {
        silences(r, &mut input, total / 3);
    }
    let mut g = Gen {
        sh,
        sr,
        maxch,
        total,
        rank: vec![],
        alive: vec![],
        specs: vec![],
        acts: vec![],
        busy: BTreeMap::new(),
        held: BTreeMap::new(),
        edges: vec![],
        started: false,
        eng: warp,
        pos: 0,
        meters: 0,
        sampler_sent: BTreeMap::new(),
        r,
    };
    let hub_in = Spec::Gain(in_ch.max(1));
    let out_ch = g.ch();
    g.create(hub_in, 0);
    g.push(Act::ToInput(0));
    let hub_out = if g.r.chance(0.5) { Spec::Gain(out_ch) } else { Spec::Mixer(out_ch, out_ch, 1) };
    g.create(hub_out, u64::MAX);
    g.push(Act::ToOutput(1));
    if g.r.chance(0.5) {
        g.connect(0, 1);
    }
    if g.r.chance(0.9) {
        g.push(Act::Start);
        g.started = true;
    }
    let first = g.r.range(1, sh.max_nodes.saturating_sub(3).max(1));
    for _ in 0..first {
        g.some_node();
    }
    let mut points: Vec<usize> = (0..g.r.below(16)).map(|_| g.r.below(total)).collect();
    points.push(total);
    points.sort();
    for p in points {
        if p > g.pos {
            g.sampler_sent.clear();
        }
        if g.started {
            g.eng += p - g.pos;
        }
        g.pos = p;
        if p == total {
            if sh.collect {
                g.push(Act::Notify);
            }
            break;
        }
        for _ in 0..g.r.range(1, 6) {
            g.random_act();
        }
    }
    let (acts, specs) = (g.acts, g.specs);
    Program {
        sr,
        maxch,
        out_ch: out_ch + r.below(2),
        total,
        input,
        warp,
        acts,
        slots: specs.len(),
        specs,
    }
}

// -------------------------------------------------------------- execution
pub enum Live {
    Gain(Gain),
    Pan(Pan),
    Osc(Oscillator),
    Sampler(Sampler),
    Mixer(Mixer),
    Biquad(Biquad),
    Compressor(Compressor),
    Adsr(Adsr),
    Conv(Convolution),
    Meter(Rc<RefCell<Envelope>>),
    Recorder(Rc<RefCell<Recorder>>),
    Shaper(Waveshaper),
}

impl Live {
    pub fn new(s: &Spec, e: &mut Eng) -> Live {
        let sr = e.sr;
        let c = e.ctx.as_ref();
        match *s {
            Spec::Gain(n) => Live::Gain(Gain::new(c, n)),
            Spec::Pan => Live::Pan(Pan::new(c, 2)),
            Spec::Osc(f, n, 0) => Live::Osc(Oscillator::sine(c, f, n)),
            Spec::Osc(f, n, 1) => Live::Osc(Oscillator::with_harmonics(
                c,
                f,
                n,
                &[Level::from_linear(0.7), Level::from_linear(-0.2), Level::zero(), Level::from_db(-20.0)],
            )),
            Spec::Osc(f, n, t) => {
                let mut r = Rng::new(t as u64);
                Live::Osc(Oscillator::new(c, f, n, (0..t).map(|_| r.uniform(-1.0, 1.0)).collect()))
            }
            Spec::Sampler(n, len, seed) => {
                let data = noise(&mut Rng::new(seed), n, len);
                Live::Sampler(Sampler::new(c, to_buffer(&data, sr)))
            }
            Spec::Mixer(i, o, k) => Live::Mixer(match k {
                1 => Mixer::unity(c, i),
                2 => Mixer::mono_to_stereo_splitter(c),
                _ => Mixer::new(c, i, o),
            }),
            Spec::Biquad(n, t) => Live::Biquad(Biquad::new(
                c,
                n,
                match t {
                    0 => BiquadFilterType::HighPass,
                    1 => BiquadFilterType::LowPass,
                    2 => BiquadFilterType::BandPass,
                    3 => BiquadFilterType::Notch,
                    4 => BiquadFilterType::HighShelf,
                    _ => BiquadFilterType::LowShelf,
                },
            )),
            Spec::Compressor(n) => Live::Compressor(Compressor::new(c, n)),
            Spec::Adsr(n) => Live::Adsr(Adsr::new(c, n, sr)),
            Spec::Conv(n, len, seed) => {
                let mut data = noise(&mut Rng::new(seed), n, len);
                let g = 1.0 / (len as f32).sqrt();
                data.iter_mut().flatten().for_each(|v| *v *= g);
                Live::Conv(Convolution::new(c, n, to_buffer(&data, sr)))
            }
            Spec::Meter(n, a, b, f) => Live::Meter(Envelope::new(
                e.ctx.as_mut(),
                n,
                Duration::from_secs_f64(a),
                Duration::from_secs_f64(b),
                f,
            )),
            Spec::Recorder(n) => Live::Recorder(Recorder::new(e.ctx.as_mut(), n, sr)),
            Spec::Shaper(n, k, t) => Live::Shaper(match k {
                0 => Waveshaper::tanh(c, n),
                1 => Waveshaper::soft_saturator(c, n, Level::from_linear(t)),
                2 => Waveshaper::hard_clip(c, n, Level::from_linear(t)),
                3 => Waveshaper::new(c, n, &|x| x * x * x),
                4 => Waveshaper::new(c, n, &move |x| x.abs() + t as f32),
                _ => Waveshaper::new(c, n, &|x| x.signum()),
            }),
        }
    }
    pub fn with<T>(&self, f: impl FnOnce(&GraphNode) -> T) -> T {
        match self {
            Live::Gain(x) => f(&x.node),
            Live::Pan(x) => f(&x.node),
            Live::Osc(x) => f(&x.node),
            Live::Sampler(x) => f(&x.node),
            Live::Mixer(x) => f(&x.node),
            Live::Biquad(x) => f(&x.node),
            Live::Compressor(x) => f(&x.node),
            Live::Adsr(x) => f(&x.node),
            Live::Conv(x) => f(&x.node),
            Live::Meter(x) => f(&x.borrow().node),
            Live::Recorder(x) => f(&x.borrow().node),
            Live::Shaper(x) => f(&x.node),
        }
    }
    pub fn param(&mut self, k: usize) -> &mut AudioParameter {
        match (self, k) {
            (Live::Gain(x), _) => x.gain(),
            (Live::Pan(x), _) => x.pan(),
            (Live::Osc(x), 0) => x.frequency(),
            (Live::Osc(x), _) => x.gain(),
            (Live::Biquad(x), 0) => x.frequency(),
            (Live::Biquad(x), 1) => x.q(),
            (Live::Biquad(x), 2) => x.shelf_gain(),
            (Live::Biquad(x), _) => x.gain(),
            (Live::Compressor(x), 0) => x.attack(),
            (Live::Compressor(x), 1) => x.release(),
            (Live::Compressor(x), 2) => x.ratio(),
            (Live::Compressor(x), 3) => x.threshold(),
            (Live::Compressor(x), 4) => x.knee(),
            (Live::Compressor(x), 5) => x.wet(),
            (Live::Compressor(x), _) => x.dry(),
            (Live::Conv(x), 0) => x.wet(),
            (Live::Conv(x), _) => x.dry(),
            (Live::Shaper(x), 0) => x.overdrive(),
            (Live::Shaper(x), _) => x.mix(),
            _ => unreachable!(),
        }
    }
}

#[derive(Default, Clone, PartialEq, Debug)]
pub struct Outcome {
    pub out: Sig,
    /// by slot, in order of collection
    pub recordings: Vec<(usize, Sig)>,
    pub recording: Vec<(usize, bool)>,
    pub peaks: Vec<(usize, usize, f32)>,
    pub clock: Vec<f64>,
}

pub struct Run<'a> {
    pub p: &'a Program,
    pub e: Eng,
    pub live: Vec<Option<Live>>,
    pub o: Outcome,
    next: usize,
    pub pos: usize,
    /// commands sent since the last process call
    pub fresh: bool,
}

impl<'a> Run<'a> {
    pub fn new(p: &'a Program, maxf: usize) -> Self {
        let mut e = Eng::new(p.sr, p.maxch, maxf);
        if p.warp > 0 {
            e.ctx.start();
            let ib = OwnedAudioBuffer::new(p.warp, 0, p.sr);
            let mut ob = OwnedAudioBuffer::new(p.warp, 0, p.sr);
            e.proc.process(&ib, &mut ob);
            e.ctx.stop();
        }
        Self {
            p,
            e,
            live: (0..p.slots).map(|_| None).collect(),
            o: Outcome {
                out: new_sig(p.out_ch),
                ..Default::default()
            },
            next: 0,
            pos: 0,
            fresh: true,
        }
    }
    /// frames up to the next action
    pub fn boundary(&self) -> usize {
        self.p.acts.get(self.next).map(|a| a.0).unwrap_or(self.p.total)
    }
    /// carry out what is due at the present position
    pub fn act(&mut self) {
        while self.next < self.p.acts.len() && self.p.acts[self.next].0 == self.pos {
            let a = &self.p.acts[self.next].1;
            self.next += 1;
            self.one(a);
            self.fresh = true;
        }
        self.o.clock.push(self.e.ctx.current_time().as_seconds());
    }
    pub fn one(&mut self, a: &Act) {
        let sr = self.p.sr;
        let ts = |f: f64| Timestamp::from_samples(f, sr);
        match a {
            Act::Start => self.e.ctx.start(),
            Act::Stop => self.e.ctx.stop(),
            Act::Create(k, s) => {
                let l = Live::new(s, &mut self.e);
                self.live[*k] = Some(l);
            }
            Act::Drop(k) => self.live[*k] = None,
            Act::Connect(a, b) => {
                let (a, b) = (self.live[*a].as_ref().unwrap(), self.live[*b].as_ref().unwrap());
                a.with(|a| b.with(|b| a.connect_to(b)));
            }
            Act::ConnectCh(a, b, s, d, n) => {
                let (a, b) = (self.live[*a].as_ref().unwrap(), self.live[*b].as_ref().unwrap());
                a.with(|a| b.with(|b| a.connect_channels_to(b, *s, *d, *n)));
            }
            Act::Disconnect(a, b) => {
                let (a, b) = (self.live[*a].as_ref().unwrap(), self.live[*b].as_ref().unwrap());
                a.with(|a| b.with(|b| a.disconnect_from_node(b)));
            }
            Act::ToInput(k) => self.live[*k].as_ref().unwrap().with(|n| n.connect_to_input()),
            Act::ToOutput(k) => self.live[*k].as_ref().unwrap().with(|n| n.connect_to_output()),
            Act::Param(k, p, op) => {
                let p = self.live[*k].as_mut().unwrap().param(*p);
                match *op {
                    Op::Now(v) => p.set_value_now(v),
                    Op::Set(v, t) => p.set_value_at_time(v, ts(t)),
                    Op::Lin(v, s, t) => p.linear_ramp_to_value(v, ts(s), ts(t)),
                    Op::Exp(v, s, t) => p.exponential_ramp_to_value(v, ts(s), ts(t)),
                    Op::Cancel => p.cancel_scheduled_changes(),
                    Op::CancelAfter(t) => p.cancel_scheduled_changes_ending_after(ts(t)),
                }
            }
            Act::Sampler(k, op) => {
                let Some(Live::Sampler(s)) = self.live[*k].as_mut() else { return };
                match *op {
                    SOp::Start(t, p) => s.start_from_position_at_time(ts(t), ts(p)),
                    SOp::StartNow => s.start_now(),
                    SOp::Stop(t) => s.stop_at_time(ts(t)),
                    SOp::StopNow => s.stop_now(),
                    SOp::Loop(a, b) => s.enable_loop(ts(a), ts(b)),
                    SOp::LoopAt(t, a, b) => s.enable_loop_at_time(ts(t), ts(a), ts(b)),
                    SOp::CancelLoop => s.cancel_loop(),
                    SOp::CancelLoopAt(t) => s.cancel_loop_at_time(ts(t)),
                    SOp::CancelAll => s.cancel_all(),
                }
            }
            Act::Note(k, on, t) => {
                let Some(Live::Adsr(n)) = self.live[*k].as_mut() else { return };
                if *on {
                    n.note_on_at_time(ts(*t));
                } else {
                    n.note_off_at_time(ts(*t));
                }
            }
            Act::Adsr(k, a) => {
                let Some(Live::Adsr(n)) = self.live[*k].as_mut() else { return };
                let d = Duration::from_secs_f64;
                n.set_adsr(d(a[0]), d(a[1]), Level::from_linear(a[2]), d(a[3]));
            }
            Act::AdsrPart(k, w, v) => {
                let Some(Live::Adsr(n)) = self.live[*k].as_mut() else { return };
                let d = Duration::from_secs_f64;
                match w {
                    0 => n.set_attack_time(d(*v)),
                    1 => n.set_decay_time(d(*v)),
                    2 => n.set_sustain_level(Level::from_linear(*v)),
                    _ => n.set_release_time(d(*v)),
                }
            }
            Act::Level(k, a, b, v) => {
                let Some(Live::Mixer(m)) = self.live[*k].as_mut() else { return };
                m.set_level(*a, *b, Level::from_linear(*v));
            }
            Act::Record(k) => {
                let Some(Live::Recorder(r)) = self.live[*k].as_mut() else { return };
                r.borrow_mut().record_now();
            }
            Act::StopRecord(k) => {
                let Some(Live::Recorder(r)) = self.live[*k].as_mut() else { return };
                r.borrow_mut().stop_record_now();
            }
            Act::StopRecordAt(k, t) => {
                let Some(Live::Recorder(r)) = self.live[*k].as_mut() else { return };
                r.borrow_mut().stop_record_at_time(ts(*t));
            }
            Act::Notify => self.collect(),
        }
    }
    fn collect(&mut self) {
        self.e.ctx.process_notifications();
        for (k, l) in self.live.iter().enumerate() {
            match l {
                Some(Live::Recorder(r)) => {
                    let mut r = r.borrow_mut();
                    self.o.recording.push((k, r.is_recording()));
                    if let Some(b) = r.take_recording() {
                        let s = (0..b.channel_count())
                            .map(|c| b.get_channel_data(SampleLocation::channel(c)).to_vec())
                            .collect();
                        self.o.recordings.push((k, s));
                    }
                }
                Some(Live::Meter(m)) => {
                    for n in m.borrow_mut().take_notifications() {
                        self.o.peaks.push((k, n.channel_index(), n.peak_level()));
                    }
                }
                _ => {}
            }
        }
    }
    /// one process call; `call` runs it
    pub fn process(&mut self, n: usize, call: &mut dyn FnMut(&mut dyn FnMut(), bool)) {
        let mut ib = OwnedAudioBuffer::new(n, self.p.input.len(), self.p.sr);
        for (c, d) in self.p.input.iter().enumerate() {
            for i in 0..n {
                if let Some(v) = d.get(self.pos + i) {
                    ib.set_sample(SampleLocation::new(c, i), *v);
                }
            }
        }
        let mut ob = OwnedAudioBuffer::new(n, self.o.out.len(), self.p.sr);
        ob.fill_with_value(DIRT);
        let p = &mut self.e.proc;
        let fresh = self.fresh;
        call(&mut || p.process(&ib, &mut ob), fresh);
        self.fresh = false;
        for (c, o) in self.o.out.iter_mut().enumerate() {
            o.extend_from_slice(ob.get_channel_data(SampleLocation::channel(c)));
        }
        self.pos += n;
        self.e.pos += n;
    }
    /// the whole program, in blocks
    pub fn all(&mut self, sizes: &mut dyn FnMut(usize) -> usize, call: &mut dyn FnMut(&mut dyn FnMut(), bool)) {
        loop {
            if self.pos == self.boundary() || self.pos == 0 {
                self.act();
            }
            if self.pos >= self.p.total {
                break;
            }
            let left = self.boundary().min(self.p.total) - self.pos;
            let n = sizes(left).clamp(1, left);
            self.process(n, call);
        }
    }
}

/// Styles of cutting into blocks
pub fn cutter(seed: u64, maxf: usize) -> impl FnMut(usize) -> usize {
    let mut r = Rng::new(seed);
    let style = r.below(6);
    let fixed = match r.below(6) {
        0 => maxf,
        1 => maxf + 1,
        2 => (maxf - 1).max(1),
        3 => 2 * maxf,
        4 => r.range(1, maxf),
        _ => r.range(1, 3 * maxf),
    };
    move |left| match style {
        0 | 1 => fixed,
        2 => r.range(1, maxf.min(8)),
        3 => r.range(1, 2 * maxf),
        4 => {
            if r.chance(0.3) {
                r.range(1, 5)
            } else {
                r.range(1, 3 * maxf)
            }
        }
        _ => left,
    }
}

pub fn render(p: &Program, maxf: usize, cut: u64) -> Outcome {
    let mut r = Run::new(p, maxf);
    let mut c = cutter(cut, maxf);
    r.all(&mut c, &mut |f, _| {
        crate::monitor::audio(false, f);
    });
    std::mem::take(&mut r.o)
}

pub fn describe(c: &mut Case, p: &Program) {
    c.note(format!(
        "sr={} maxch={} in={} out={} total={} warp={}",
        p.sr,
        p.maxch,
        p.input.len(),
        p.out_ch,
        p.total,
        p.warp
    ));
    for (t, a) in &p.acts {
        c.note(format!("@{t} {a:?}"));
    }
    for s in &p.specs {
        c.tag(s.name());
    }
}

fn mentions(a: &Act) -> Vec<usize> {
    match a {
        Act::Start | Act::Stop | Act::Notify => vec![],
        Act::Connect(a, b) | Act::ConnectCh(a, b, ..) | Act::Disconnect(a, b) => vec![*a, *b],
        Act::Create(k, _)
        | Act::Drop(k)
        | Act::ToInput(k)
        | Act::ToOutput(k)
        | Act::Param(k, ..)
        | Act::Sampler(k, _)
        | Act::Note(k, ..)
        | Act::Adsr(k, _)
        | Act::AdsrPart(k, ..)
        | Act::Level(k, ..)
        | Act::Record(k)
        | Act::StopRecord(k)
        | Act::StopRecordAt(k, _) => vec![*k],
    }
}

/// Smaller program for which `bad` still holds
pub fn minimize(p: &Program, bad: &mut dyn FnMut(&Program) -> bool) -> Program {
    let mut p = p.clone();
    loop {
        let mut again = false;
        for k in 0..p.slots {
            let mut q = p.clone();
            q.acts.retain(|a| !mentions(&a.1).contains(&k));
            if q.acts.len() < p.acts.len() && bad(&q) {
                p = q;
                again = true;
            }
        }
        let mut i = 0;
        while i < p.acts.len() {
            if !matches!(p.acts[i].1, Act::Create(..) | Act::Drop(_)) {
                let mut q = p.clone();
                q.acts.remove(i);
                if bad(&q) {
                    p = q;
                    again = true;
                    continue;
                }
            }
            i += 1;
        }
        if !again {
            return p;
        }
    }
}
