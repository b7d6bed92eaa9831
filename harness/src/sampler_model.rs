//! The specified behaviour of the sampler node, frame by frame (C07, C08).
use crate::core::*;
use crate::eng::*;
use rawdio::prelude::*;
use rawdio::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    StartNow,
    /// position in samples
    Start(f64),
    Stop,
    Loop(f64, f64),
    CancelLoop,
    CancelAll,
}

#[derive(Clone, Debug)]
struct Voice {
    pos: i64,
    /// fading in: gain index, None when at full level
    fade_in: Option<usize>,
    fade_out: Option<usize>,
    /// gave way to a third voice: may be silent from here on
    cut: bool,
}

pub struct SamplerModel {
    source: Sig,
    len: i64,
    fade: Vec<f64>,
    voices: Vec<Voice>,
    active: bool,
    loop_points: Option<(f64, f64)>,
    /// frames (and fraction) played since the reference point
    elapsed: f64,
    reference: f64,
    loops: usize,
    pub total_loops: usize,
    /// rounding decides: nothing can be said from here on
    pub ambiguous: bool,
    pub starts: usize,
    pub starts_late: usize,
    pub stops: usize,
    pub ended: usize,
    pub overlaps: usize,
    pub cut: usize,
}

/// (time in frames, sequence, event)
pub type Pending = (f64, usize, Ev);

impl SamplerModel {
    pub fn new(source: Sig, sr: usize) -> Self {
        let n = (sr as f64 * 0.05).ceil() as usize;
        let fade = (0..n)
            .map(|p| 0.5 + 0.5 * ((2.0 * p as f64 / n as f64 - 1.0) * std::f64::consts::FRAC_PI_2).sin())
            .collect();
        let len = source[0].len() as i64;
        Self {
            source,
            len,
            fade,
            voices: Vec::new(),
            active: false,
            loop_points: None,
            elapsed: 0.0,
            reference: 0.0,
            loops: 0,
            total_loops: 0,
            starts: 0,
            ambiguous: false,
            starts_late: 0,
            stops: 0,
            ended: 0,
            overlaps: 0,
            cut: 0,
        }
    }
    pub fn fade_len(&self) -> usize {
        self.fade.len()
    }
    fn value(&self, p: usize) -> f64 {
        self.fade.get(p).copied().unwrap_or(1.0)
    }
    fn stop_voices(&mut self) {
        let n = self.fade.len();
        for v in self.voices.iter_mut() {
            if v.fade_out.is_none() {
                v.fade_out = Some(match v.fade_in.take() {
                    Some(p) => n - p.min(n),
                    None => 0,
                });
            }
        }
        self.active = false;
    }
    fn new_voice(&mut self, pos: f64) {
        if (pos - pos.floor() - 0.5).abs() < 0.002 {
            self.ambiguous = true;
        }
        let pos = pos.round().max(0.0) as i64;
        if self.active {
            if let Some(v) = self.voices.last() {
                if v.pos == pos {
                    return;
                }
            }
        }
        self.stop_voices();
        if self.voices.len() >= 2 {
            // one of the fading ones may have to give way
            for v in self.voices.iter_mut() {
                v.cut = true;
            }
            self.cut += 1;
        }
        self.voices.push(Voice {
            pos,
            fade_in: if pos == 0 { None } else { Some(0) },
            fade_out: None,
            cut: false,
        });
        self.active = true;
    }
    pub fn playing(&self) -> bool {
        self.active
    }
    pub fn silent(&self) -> bool {
        self.voices.is_empty()
    }
    /// where playback is in the source
    pub fn source_position(&self) -> f64 {
        match self.loop_points {
            Some((s, e)) if self.loops > 0 => s + self.elapsed - (e - self.reference) - (e - s) * (self.loops - 1) as f64,
            _ => self.reference + self.elapsed,
        }
    }
    pub fn looping(&self) -> bool {
        self.loop_points.is_some()
    }
    pub fn loop_points(&self) -> Option<(f64, f64)> {
        self.loop_points
    }
    pub fn event(&mut self, time: f64, ev: Ev, frame: usize) {
        match ev {
            Ev::StartNow => self.start(0.0, 0.0),
            Ev::Start(p) => self.start(p, frame as f64 - time),
            Ev::Stop => {
                if self.active {
                    self.stops += 1;
                }
                self.stop_voices();
            }
            Ev::Loop(s, e) => {
                self.reference = self.source_position();
                self.elapsed = 0.0;
                self.loops = 0;
                // an empty loop is no loop
                self.loop_points = if e - s >= 1.0 { Some((s, e)) } else { None };
            }
            Ev::CancelLoop => {
                self.reference = self.source_position();
                self.elapsed = 0.0;
                self.loops = 0;
                self.loop_points = None;
            }
            Ev::CancelAll => {
                self.stop_voices();
                self.loop_points = None;
            }
        }
    }
    fn start(&mut self, p: f64, delay: f64) {
        self.starts += 1;
        self.reference = p;
        self.elapsed = delay;
        self.loops = 0;
        let mut at = p + delay;
        if let Some((_, e)) = self.loop_points {
            if at >= e {
                // late by more than the rest of the loop: the next frame finds it out
                self.stop_voices();
                self.active = true;
                self.starts_late += 1;
                return;
            }
        }
        at = at.max(0.0);
        self.new_voice(at);
    }
    /// Every set of sample values (per channel) that this frame may have.
    pub fn frame(&mut self) -> Vec<Vec<f64>> {
        if self.active {
            if let Some((s, e)) = self.loop_points {
                let due = (e - self.reference) + (e - s) * self.loops as f64;
                if (due - self.elapsed - 0.5).abs() < 0.002 {
                    self.ambiguous = true;
                }
                if (due - self.elapsed).round() <= 0.0 {
                    // a late start may be whole loops late
                    let over = self.elapsed - due;
                    let k = (over / (e - s)).floor().max(0.0);
                    self.loops += 1 + k as usize;
                    self.total_loops += 1;
                    self.new_voice(if over < 1.0 { s } else { s + over - k * (e - s) });
                    // joined within the last half frame of a loop: that frame may be left out
                    if (due + (e - s) * (1.0 + k) - self.elapsed).round() <= 0.0 {
                        self.ambiguous = true;
                    }
                }
            }
        }
        self.elapsed += 1.0;
        let n = self.fade.len();
        let ch = self.source.len();
        let mut must = vec![0.0; ch];
        let mut may: Vec<Vec<f64>> = Vec::new();
        if self.voices.len() > 1 {
            self.overlaps += 1;
        }
        let mut voices = std::mem::take(&mut self.voices);
        for v in voices.iter_mut() {
            let g = match (v.fade_in, v.fade_out) {
                (_, Some(q)) => self.value(n - q),
                (Some(p), _) => self.value(p),
                _ => 1.0,
            };
            if v.pos < self.len {
                let x: Vec<f64> = (0..ch).map(|c| g * self.source[c][v.pos as usize] as f64).collect();
                if v.cut {
                    may.push(x);
                } else {
                    for c in 0..ch {
                        must[c] += x[c];
                    }
                }
            } else if v.pos == self.len && v.fade_out.is_none() {
                self.ended += 1;
            }
            v.pos += 1;
            if let Some(q) = v.fade_out.as_mut() {
                *q += 1;
            } else if let Some(p) = v.fade_in.as_mut() {
                *p += 1;
                if *p >= n {
                    v.fade_in = None;
                }
            }
        }
        voices.retain(|v| v.fade_out.map(|q| q < n).unwrap_or(true));
        self.voices = voices;
        let mut all = vec![must];
        if may.len() > 9 {
            return Vec::new();
        }
        for x in may {
            for k in 0..all.len() {
                let mut y = all[k].clone();
                for c in 0..ch {
                    y[c] += x[c];
                }
                all.push(y);
            }
        }
        all
    }
}

/// Sampler and model under the same events.
pub struct Rig {
    pub node: Sampler,
    pub model: SamplerModel,
    pending: Vec<Pending>,
    seq: usize,
    sr: usize,
    ch: usize,
    pub late: usize,
    pub applied: usize,
    /// sent since the last block
    pub sent: usize,
}

impl Rig {
    pub fn new(e: &mut Eng, source: Sig) -> Self {
        let node = Sampler::new(e.ctx.as_ref(), to_buffer(&source, e.sr));
        Self::with(e, source, node)
    }
    /// A sampler that takes `events` events between two process calls.
    pub fn with_capacity(e: &mut Eng, source: Sig, events: usize) -> Self {
        let node = Sampler::new_with_event_capacity(e.ctx.as_ref(), to_buffer(&source, e.sr), events);
        Self::with(e, source, node)
    }
    fn with(e: &mut Eng, source: Sig, node: Sampler) -> Self {
        node.node.connect_to_output();
        let ch = source.len();
        Self {
            node,
            model: SamplerModel::new(source, e.sr),
            pending: Vec::new(),
            seq: 0,
            sr: e.sr,
            ch,
            late: 0,
            applied: 0,
            sent: 0,
        }
    }
    fn q(&self, samples: f64) -> Timestamp {
        Timestamp::from_samples(samples, self.sr)
    }
    /// t: time in frames, None = now
    pub fn send(&mut self, c: &mut Case, now: usize, t: Option<f64>, ev: Ev) {
        let time = t.unwrap_or(0.0);
        let ts = self.q(time);
        match (ev, t) {
            (Ev::StartNow, _) => self.node.start_now(),
            (Ev::Start(p), _) => {
                let p = self.q(p);
                self.node.start_from_position_at_time(ts, p)
            }
            (Ev::Stop, None) => self.node.stop_now(),
            (Ev::Stop, _) => self.node.stop_at_time(ts),
            (Ev::Loop(a, b), None) => {
                let (a, b) = (self.q(a), self.q(b));
                self.node.enable_loop(a, b)
            }
            (Ev::Loop(a, b), _) => {
                let (a, b) = (self.q(a), self.q(b));
                self.node.enable_loop_at_time(ts, a, b)
            }
            (Ev::CancelLoop, None) => self.node.cancel_loop(),
            (Ev::CancelLoop, _) => self.node.cancel_loop_at_time(ts),
            (Ev::CancelAll, _) => self.node.cancel_all(),
        }
        c.note(format!("@{now} {ev:?} at {t:?}"));
        let time = if matches!(ev, Ev::StartNow | Ev::CancelAll) { 0.0 } else { time };
        if time > 0.0 && time < now as f64 {
            self.late += 1;
        }
        if ev == Ev::CancelAll {
            self.pending.clear();
        }
        self.pending.push((time, self.seq, ev));
        self.pending.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
        self.seq += 1;
        self.sent += 1;
    }
    /// what is still to come, for planning
    pub fn pending(&self) -> &[Pending] {
        &self.pending
    }
    /// Render one process call and compare.
    pub fn block(&mut self, e: &mut Eng, n: usize) -> Res {
        let at = e.pos;
        let mut out = new_sig(self.ch);
        e.block(&Vec::new(), &mut out, n);
        self.sent = 0;
        for f in 0..n {
            let i = at + f;
            while let Some(p) = self.pending.first() {
                if p.0.floor() as usize > i {
                    break;
                }
                let p = self.pending.remove(0);
                self.applied += 1;
                self.model.event(p.0, p.2, i);
            }
            let was = self.model.silent();
            let want = self.model.frame();
            if self.model.ambiguous {
                return Ok(());
            }
            let ok = want.is_empty() || want.iter().any(|w| (0..self.ch).all(|k| (out[k][f] as f64 - w[k]).abs() <= 4e-6));
            if !ok {
                let got: Vec<f32> = (0..self.ch).map(|k| out[k][f]).collect();
                let sig = if was { "not-silent" } else { "wrong-sample" };
                return fail(
                    sig,
                    format!(
                        "frame {i}: output {got:?} instead of {:?} (source position {:.3}, {} voices sounding, playing {}, loop {:?})",
                        want[0],
                        self.model.source_position() - 1.0,
                        self.model.voices.len(),
                        self.model.active,
                        self.model.loop_points
                    ),
                );
            }
        }
        Ok(())
    }
}
