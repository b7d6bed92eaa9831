//! C09 ADSR: a monitor automaton over the envelope of every frame.
use crate::core::*;
use crate::eng::*;
use rawdio::prelude::*;
use rawdio::*;
use std::time::Duration;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "random attack, decay, sustain and release (also zero and extreme), note histories with overlaps, events submitted in any order, early and late, several in one frame, parameter changes while playing, irregular blocks; the envelope of every frame is observed through a constant input and followed by a monitor; non-trivial = at least 3 notes and at least two kinds of phase completed",
        quick_cases: 30_000,
        thorough_cases: 300_000,
        parallel: true,
        assumptions: &["durations to within two samples or 0.1 %", ],
        required: &["attacks_timed", "decays_timed", "releases_timed", "early_release", "retriggers", "sustain_zero", "sustain_one", "late_events", "same_frame", "idle_frames", "large_batches", "sustained_frames"],
        case,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ph {
    Idle,
    Attack,
    Decay,
    Sustain,
    Release,
}

#[derive(Clone, Copy, Debug)]
enum Ev {
    On,
    Off,
    Adsr([f64; 4]),
}

struct Monitor {
    ph: Ph,
    start: usize,
    v0: f64,
    prev: f64,
    adsr: [f64; 4],
    /// settings changed during the present phase
    disturbed: bool,
    completed: [bool; 3],
}

impl Monitor {
    fn event(&mut self, c: &mut Case, e: Ev, i: usize) {
        match e {
            Ev::On => {
                if self.prev > 0.0 {
                    c.count("retriggers", 1);
                }
                self.enter(Ph::Attack, i);
            }
            Ev::Off => {
                if self.ph != Ph::Idle && self.ph != Ph::Release {
                    if self.ph != Ph::Sustain {
                        c.count("early_release", 1);
                    }
                    self.enter(Ph::Release, i);
                }
            }
            Ev::Adsr(a) => {
                self.adsr = a;
                self.disturbed = true;
            }
        }
    }
    fn enter(&mut self, ph: Ph, i: usize) {
        self.ph = ph;
        self.start = i;
        self.v0 = self.prev;
        self.disturbed = false;
    }
    fn observe(&mut self, c: &mut Case, i: usize, e: f32, sr: f64) -> Res {
        let e = e as f64;
        let [a, d, s, r] = self.adsr;
        let s = s as f32 as f64;
        if !(0.0..=1.0).contains(&e) {
            return fail("range", format!("envelope {e} at frame {i} in {:?}", self.ph));
        }
        let n = (i + 1 - self.start) as f64;
        let slack = |t: f64| 2.0 + 0.001 * t;
        let prev = self.prev;
        self.prev = e;
        match self.ph {
            Ph::Idle => {
                c.count("idle_frames", 1);
                if e != 0.0 {
                    return fail("idle", format!("envelope {e} at frame {i} with no note on"));
                }
            }
            Ph::Attack => {
                let t = a * sr;
                if e < prev {
                    return fail("attack", format!("envelope fell from {prev} to {e} at frame {i} in the attack"));
                }
                if n == 1.0 && e == prev && prev < 1.0 && t < 1e5 {
                    return fail("attack", format!("note on at frame {i} has no effect in that frame (envelope stays {e})"));
                }
                if t > 1.0 && e - prev > 4.0 / t + 1e-6 {
                    return fail("jump", format!("envelope jumped from {prev} to {e} at frame {i} in an attack of {t} frames"));
                }
                if !self.disturbed && e < 1.0 && n > t.max(1.0) + slack(t) {
                    return fail("attack", format!("envelope {e} at frame {i}, {n} frames into an attack of {t} frames"));
                }
                if e >= 1.0 {
                    if !self.disturbed && self.v0 == 0.0 {
                        if n < t - slack(t) {
                            return fail("attack", format!("attack of {t} frames was over after {n} (frame {i})"));
                        }
                        c.count("attacks_timed", 1);
                        self.completed[0] = true;
                    }
                    self.enter(Ph::Decay, i + 1);
                }
            }
            Ph::Decay => {
                let t = d * sr;
                if e > prev && !self.disturbed {
                    return fail("decay", format!("envelope rose from {prev} to {e} at frame {i} in the decay"));
                }
                if e < s {
                    return fail("decay", format!("envelope {e} below the sustain level {s} at frame {i} in the decay"));
                }
                if e <= s {
                    if !self.disturbed && s < 0.999 {
                        if n < t - slack(t) {
                            return fail("decay", format!("decay of {t} frames was over after {n} (frame {i})"));
                        }
                        c.count("decays_timed", 1);
                        self.completed[1] = true;
                    }
                    self.enter(Ph::Sustain, i + 1);
                } else if !self.disturbed && n > t.max(1.0) + slack(t) {
                    return fail("decay", format!("envelope {e} at frame {i}, {n} frames into a decay of {t} frames to {s}"));
                }
            }
            Ph::Sustain => {
                c.count("sustained_frames", 1);
                if s == 0.0 {
                    c.count("sustain_zero", 1);
                }
                if s == 1.0 {
                    c.count("sustain_one", 1);
                }
                if e != s {
                    return fail("sustain", format!("envelope {e} at frame {i} instead of the sustain level {s}"));
                }
            }
            Ph::Release => {
                let t = r * sr;
                if e > prev {
                    return fail("release", format!("envelope rose from {prev} to {e} at frame {i} in the release"));
                }
                if e == 0.0 {
                    if !self.disturbed && self.v0 > 0.05 {
                        if n < 0.95 * t - slack(t) {
                            return fail("release", format!("release of {t} frames from {} was over after {n} (frame {i})", self.v0));
                        }
                        c.count("releases_timed", 1);
                        self.completed[2] = true;
                    }
                    self.enter(Ph::Idle, i + 1);
                } else if !self.disturbed && n > t.max(1.0) + slack(t) {
                    return fail(
                        "release",
                        format!("envelope {e} at frame {i}, {n} frames into a release of {t} frames from {} (sustain {s})", self.v0),
                    );
                }
            }
        }
        Ok(())
    }
}

fn seconds(c: &mut Case, sr: usize) -> f64 {
    match c.rng.below(8) {
        0 => 0.0,
        1 => c.rng.uniform(0.0, 3.0) / sr as f64,
        2 => c.rng.log_uniform(0.1, 5.0),
        _ => c.rng.log_uniform(3.0, 1500.0) / sr as f64,
    }
}

fn settings(c: &mut Case, sr: usize) -> [f64; 4] {
    let s = match c.rng.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.001,
        _ => c.rng.f64(),
    };
    // durations have nanosecond resolution
    let q = |x: f64| (x * 1e9).round() / 1e9;
    [q(seconds(c, sr)), q(seconds(c, sr)), s, q(seconds(c, sr))]
}

fn apply(n: &mut Adsr, a: [f64; 4]) {
    n.set_adsr(
        Duration::from_secs_f64(a[0]),
        Duration::from_secs_f64(a[1]),
        Level::from_linear(a[2]),
        Duration::from_secs_f64(a[3]),
    );
}

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng);
    let ch = channels(&mut c.rng, 5);
    let mut e = Eng::new(sr, ch.max(5), maxf);
    let base = if c.index % 16 == 5 { e.warp(&mut c.rng) } else { 0 };
    let mut node = Adsr::new(e.ctx.as_ref(), ch, sr);
    node.node.connect_to_input();
    node.node.connect_to_output();
    let total = c.rng.range(50, 5000);
    let mut input = noise(&mut c.rng, ch, total);
    input[0] = vec![1.0; total];
    let first = settings(c, sr);
    apply(&mut node, first);
    let mut m = Monitor {
        ph: Ph::Idle,
        start: 0,
        v0: 0.0,
        prev: 0.0,
        adsr: first,
        disturbed: false,
        completed: [false; 3],
    };
    c.note(format!("sr={sr} x{ch} maxf={maxf} total={total} from={base} adsr={first:?}"));
    e.ctx.start();
    let sizes = partition(&mut c.rng, total, maxf, &[]);
    let p_cmd = (20.0 / sizes.len() as f64).min(0.5);
    // (time in frames, sequence, event)
    let mut pending: Vec<(f64, usize, Ev)> = Vec::new();
    let mut seq = 0;
    let mut notes = 0;
    let change = c.rng.chance(0.3);
    // some cases submit far more than usual before a block or two
    let mut large = if c.rng.chance(0.1) { c.rng.range(1, 3) } else { 0 };
    let dense = c.rng.chance(0.3);
    let mut applied = 0usize;
    for n in sizes {
        let at = e.pos;
        let mut sent = if at == base { 4 } else { 0 };
        let (p_now, most) = if large > 0 && c.rng.chance(0.3) {
            large -= 1;
            (0.99, 300)
        } else {
            (p_cmd, 24)
        };
        while c.rng.chance(p_now) && sent < most {
            if change && c.rng.chance(0.15) {
                let a = settings(c, sr);
                apply(&mut node, a);
                pending.push((0.0, seq, Ev::Adsr(a)));
                seq += 1;
                sent += 4;
                c.note(format!("@{at} adsr {a:?}"));
                continue;
            }
            // a note, possibly with its end first
            let mut evs = Vec::new();
            let reach = if dense { 60 } else { 1200 };
            let t = match c.rng.below(8) {
                0 => {
                    c.count("late_events", 1);
                    c.rng.uniform(0.0, at as f64 + 0.25).max(0.0)
                }
                1 => 0.0,
                _ => at as f64 + c.rng.below(reach) as f64 + *c.rng.pick(&[0.25, 0.5, 0.5, 0.75]),
            };
            let len = match c.rng.below(5) {
                0 => 0.0,
                1 => 0.25,
                _ => c.rng.below(reach) as f64,
            };
            // keep clear of the sample grid; times equal or well apart
            let clear = |x: f64| {
                if x > 0.0 {
                    x.floor() + ((x - x.floor()) * 4.0).round().clamp(1.0, 3.0) / 4.0
                } else {
                    x
                }
            };
            evs.push((clear(t), Ev::On));
            if c.rng.chance(0.8) {
                evs.push((clear(t + len), Ev::Off));
            }
            if c.rng.chance(0.3) {
                evs.reverse();
            }
            for (t, ev) in evs {
                let ts = Timestamp::from_samples(t, sr);
                match ev {
                    Ev::On => {
                        node.note_on_at_time(ts);
                        notes += 1;
                    }
                    _ => node.note_off_at_time(ts),
                }
                c.note(format!("@{at} {ev:?} {t}"));
                pending.push((t, seq, ev));
                seq += 1;
                sent += 1;
            }
        }
        if sent > 32 {
            c.count("large_batches", 1);
        }
        pending.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
        let mut out = new_sig(ch);
        e.pos = at - base;
        e.block(&input, &mut out, n);
        e.pos = at + n;
        let mut last_event = usize::MAX;
        for f in 0..n {
            let i = at + f;
            while let Some(p) = pending.first() {
                if p.0.floor() as usize > i {
                    break;
                }
                let p = pending.remove(0);
                if last_event == i {
                    c.count("same_frame", 1);
                }
                last_event = i;
                applied += 1;
                m.event(c, p.2, i);
            }
            let env = out[0][f];
            m.observe(c, i, env, sr as f64)?;
            for k in 1..ch {
                let want = input[k][i - base] as f64 * env as f64;
                if !((out[k][f] as f64 - want).abs() <= 1e-6 * want.abs() + 1e-30) {
                    return fail("channels", format!("channel {k} frame {i}: {} instead of {want}", out[k][f]));
                }
            }
        }
    }
    c.count("events", applied);
    c.nontrivial = notes >= 3 && m.completed.iter().filter(|x| **x).count() >= 2;
    Ok(())
}
