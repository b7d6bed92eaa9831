//! C11 envelope meter: every notification against a reference follower.
use super::c16::{coefficient, Follower};
use crate::core::*;
use crate::eng::*;
use rawdio::prelude::*;
use rawdio::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "1-3 meters of 1-5 channels with attack and release from 0 to seconds and notification rates from far slower than the blocks to many per block, fed steps, bursts, noise and silence cut into irregular blocks, created before and after rendering began, collected after every block, now and then, or never; every notification is compared in count, order, channel and peak; non-trivial = at least 3 intervals completed by one meter",
        quick_cases: 20_000,
        thorough_cases: 300_000,
        parallel: true,
        assumptions: &["envelope smoothing in single or double precision", "uncollected notifications beyond the first 64 may be dropped"],
        required: &["notifications", "several_per_block", "slower_than_block", "fractional_interval", "multichannel", "overflowed", "after_overflow", "zero_attack", "zero_release", "long_runs", "siblings_dropped"],
        case,
    }
}

struct Meter {
    node: Rc<RefCell<Envelope>>,
    ch: usize,
    first: usize,
    att: f64,
    rel: f64,
    interval: f64,
    followers: Vec<Follower>,
    /// tolerance relative to the level, from the coefficients
    slop: f64,
    frames: usize,
    /// peaks (lo, hi) since the last notification was due
    peaks: Vec<(f64, f64)>,
    next: usize,
    /// due since the last collection: channel, lo, hi
    due: Vec<(usize, f64, f64)>,
    /// some were lost before the next collection
    after: bool,
    /// since the last notification received
    carried: Vec<f64>,
    done: usize,
}

fn signal(c: &mut Case, ch: usize, n: usize) -> Sig {
    (0..ch)
        .map(|_| {
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let len = c.rng.log_uniform(1.0, n as f64 + 1.0) as usize + 1;
                let amp = match c.rng.below(4) {
                    0 => 0.0,
                    1 => c.rng.log_uniform(1e-4, 1.0),
                    2 => 1.0,
                    _ => c.rng.f64() * 2.0,
                };
                let kind = c.rng.below(3);
                for i in 0..len {
                    if v.len() == n {
                        break;
                    }
                    v.push(match kind {
                        0 => amp as f32,
                        1 => c.rng.uniform(-amp, amp) as f32,
                        _ => {
                            if i == 0 {
                                -amp as f32
                            } else {
                                0.0
                            }
                        }
                    });
                }
            }
            v
        })
        .collect()
}

fn time(c: &mut Case, sr: usize) -> f64 {
    let t = match c.rng.below(6) {
        0 => 0.0,
        1 => c.rng.uniform(0.1, 3.0) / sr as f64,
        2 => c.rng.log_uniform(0.05, 3.0),
        _ => c.rng.log_uniform(2.0, 2000.0) / sr as f64,
    };
    (t * 1e9).round() / 1e9
}

fn make(c: &mut Case, e: &mut Eng, total: usize, maxch: usize, pos: usize) -> Meter {
    let ch = c.rng.range(1, maxch);
    let att = time(c, e.sr);
    let rel = time(c, e.sr);
    let (sr, maxf) = (e.sr as f64, e.maxf as f64);
    let (freq, interval) = loop {
        let interval = match c.rng.below(6) {
            0 => c.rng.range(2, 3 * e.maxf + 3) as f64,
            1 => c.rng.log_uniform(2.0, 6.0 * maxf + 4.0),
            2 => c.rng.uniform(2.0, 2.0 + maxf * 0.2),
            3 => sr / *c.rng.pick(&[25.0, 30.0, 60.0, 100.0, 59.94]),
            _ => c.rng.log_uniform(3.0, total as f64 / 3.0 + 4.0),
        };
        let freq = sr / interval;
        let interval = sr / freq;
        // exact, or never within rounding of a frame
        let exact = interval.fract() == 0.0;
        let clear = |k: usize| {
            let t = k as f64 * interval;
            (t - t.round()).abs() > 1e-6
        };
        if exact || (1..=(total as f64 / interval) as usize + 1).all(clear) {
            break (freq, interval);
        }
    };
    let node = Envelope::new(e.ctx.as_mut(), ch, Duration::from_secs_f64(att), Duration::from_secs_f64(rel), freq);
    if c.rng.chance(0.5) {
        node.borrow().node.connect_to_output();
    }
    c.note(format!("@{pos} meter x{ch} att={att} rel={rel} interval={interval}"));
    if interval > 2.0 * maxf {
        c.count("slower_than_block", 1);
    }
    if interval.fract() != 0.0 {
        c.count("fractional_interval", 1);
    }
    if ch > 1 {
        c.count("multichannel", 1);
    }
    if att == 0.0 {
        c.count("zero_attack", 1);
    }
    if rel == 0.0 {
        c.count("zero_release", 1);
    }
    let (ca, cr) = (coefficient(sr, att), coefficient(sr, rel));
    let slop = 1e-5 + 2.4e-7 / (1.0 - ca).min(1.0 - cr).max(1e-9);
    Meter {
        node,
        ch,
        first: pos,
        att: ca,
        rel: cr,
        interval,
        followers: vec![Follower::new(); ch],
        slop,
        frames: 0,
        peaks: vec![(0.0, 0.0); ch],
        next: 1,
        due: Vec::new(),
        after: false,
        carried: vec![0.0; ch],
        done: 0,
    }
}

impl Meter {
    fn feed(&mut self, input: &Sig, from: usize, n: usize) -> usize {
        let mut in_block = 0;
        for i in 0..n {
            self.frames += 1;
            for k in 0..self.ch {
                let x = input.get(k).and_then(|d| d.get(from + i)).copied().unwrap_or(0.0);
                let v = self.followers[k].next(x, self.att, self.rel);
                let s = &mut self.peaks[k];
                *s = (s.0.max(v.0), s.1.max(v.1));
                self.carried[k] = self.carried[k].max(v.1);
            }
            if self.frames >= (self.next as f64 * self.interval).ceil() as usize {
                for k in 0..self.ch {
                    let s = self.peaks[k];
                    self.due.push((k, s.0, s.1));
                    self.peaks[k] = (0.0, 0.0);
                }
                self.next += 1;
                in_block += 1;
                self.done += 1;
            }
        }
        in_block
    }

    fn collect(&mut self, c: &mut Case, pos: usize) -> Res {
        let got = self.node.borrow_mut().take_notifications();
        let must = self.due.len().min(64);
        if got.len() < must || got.len() > self.due.len() {
            return fail(
                "count",
                format!(
                    "{} notifications collected at frame {pos} instead of {} (meter from frame {}, {} channels, interval {} frames, {} sent before)",
                    got.len(),
                    self.due.len(),
                    self.first,
                    self.ch,
                    self.interval,
                    self.done
                ),
            );
        }
        let lost = got.len() < self.due.len();
        for (j, n) in got.iter().enumerate() {
            let (k, lo, mut hi) = self.due[j];
            if n.channel_index() != k {
                return fail(
                    "order",
                    format!(
                        "notification {j} of this collection is for channel {} instead of {k} (frame {pos})",
                        n.channel_index()
                    ),
                );
            }
            if self.after && j < self.ch {
                // whatever was lost before may be included
                hi = hi.max(self.carried[k]);
            }
            let v = n.peak_level() as f64;
            let spread = (hi - lo).abs();
            let tol = 1e-6 + self.slop * hi + spread;
            if !(v >= lo - tol && v <= hi + tol) {
                return fail(
                    "peak",
                    format!(
                        "peak {v} of channel {k} instead of {lo}..{hi} (notification {j} of {} collected at frame {pos}; meter from frame {}, interval {} frames)",
                        got.len(),
                        self.first,
                        self.interval
                    ),
                );
            }
            c.count("notifications", 1);
        }
        if self.after && !got.is_empty() {
            self.after = false;
            c.count("after_overflow", 1);
        }
        if lost {
            c.count("overflowed", 1);
            self.after = true;
        } else if !got.is_empty() {
            for k in 0..self.ch {
                self.carried[k] = self.peaks[k].1;
            }
        }
        self.due.clear();
        Ok(())
    }
}

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng);
    let most = channels(&mut c.rng, 5);
    let mut e = Eng::new(sr, most.max(6), maxf);
    let base = if c.index % 16 == 5 { e.warp(&mut c.rng) } else { 0 };
    let long = c.index % 64 == 7;
    let total = if long { c.rng.range(40_000, 120_000) } else { c.rng.range(20, 6000) };
    if long {
        c.count("long_runs", 1);
    }
    let in_ch = c.rng.range(1, most.max(5));
    let mut input = signal(c, in_ch, total);
    if c.rng.chance(0.4) {
        silences(&mut c.rng, &mut input, total / 4);
    }
    c.note(format!("sr={sr} maxf={maxf} total={total} from={base} in={in_ch}"));
    // only one node can listen to the system input: a gain passes it on
    let mut hub = Gain::new(e.ctx.as_ref(), in_ch);
    hub.gain().set_value_at_time(1.0, Timestamp::zero());
    hub.node.connect_to_input();
    let mut meters: Vec<Meter> = Vec::new();
    let at_start = c.rng.below(3);
    let want = c.rng.range(at_start.max(1), 3);
    e.ctx.start();
    let collect = c.rng.below(4);
    let sizes = partition(&mut c.rng, total, maxf, &[]);
    let mut created = 0;
    let mut pos = 0;
    let p_new = (3.0 / sizes.len() as f64).min(1.0);
    for n in sizes {
        while created < at_start || (created < want && (c.rng.chance(p_new) || pos == 0)) {
            let m = make(c, &mut e, total, most.max(5), pos);
            {
                let b = m.node.borrow();
                let node = &b.node;
                hub.node.connect_to(node);
            }
            meters.push(m);
            created += 1;
        }
        if meters.len() > 1 && c.rng.chance(p_new * 0.2) {
            let k = c.rng.below(meters.len());
            meters.remove(k);
            c.count("siblings_dropped", 1);
            c.note(format!("@{pos} drop meter {k}"));
        }
        let mut out = new_sig(1);
        e.pos = pos;
        e.block(&input, &mut out, n);
        for m in meters.iter_mut() {
            let k = m.feed(&input, pos, n);
            if k > 1 {
                c.count("several_per_block", 1);
            }
        }
        pos += n;
        let now = match collect {
            0 | 1 => true,
            2 => c.rng.chance(0.2),
            _ => c.rng.chance(3.0 * n as f64 / total as f64),
        };
        if now {
            e.ctx.process_notifications();
            for m in meters.iter_mut() {
                m.collect(c, pos)?;
            }
        }
    }
    e.ctx.process_notifications();
    for m in meters.iter_mut() {
        m.collect(c, pos)?;
    }
    c.nontrivial = meters.iter().any(|m| m.done >= 3);
    Ok(())
}
