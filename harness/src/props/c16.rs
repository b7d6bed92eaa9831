//! C16 compressor: every sample against the static curve applied to a
//! reference envelope, with the parameter values observed by a twin node.
use crate::core::*;
use crate::eng::*;
use crate::model::*;
use rawdio::*;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "compressors with parameters over their whole ranges (threshold, ratio 1..infinite, knee 0..24, attack/release 0..seconds, wet, dry), static or automated, 1-5 channels of steps, tones, noise, silence and levels exactly at the threshold; non-trivial = both reduced and unreduced samples in the case",
        quick_cases: 20_000,
        thorough_cases: 150_000,
        parallel: true,
        assumptions: &["envelope smoothing in single or double precision", "levels at or below -128 dB count as -128 dB"],
        required: &["below_knee", "in_knee", "above_knee", "exactly_at_threshold", "infinite_ratio", "automated", "dry_and_wet", "silence"],
        case,
    }
}

/// One-pole follower, the hull of its usual formulations in both precisions.
#[derive(Clone)]
pub struct Follower {
    pub a: f32,
    pub b: f64,
    /// other formulations in single precision
    pub d: [f32; 2],
}

pub fn coefficient(sr: f64, seconds: f64) -> f64 {
    (-1.0 / (sr * seconds)).exp()
}

impl Follower {
    pub fn new() -> Self {
        Self { a: 0.0, b: 0.0, d: [0.0; 2] }
    }
    pub fn next(&mut self, x: f32, attack: f64, release: f64) -> (f64, f64) {
        let x = x.abs();
        let c = (if self.a < x { attack } else { release }) as f32;
        self.a = self.a * c + x * (1.0 - c);
        let c = if self.b < x as f64 { attack } else { release };
        self.b = self.b * c + x as f64 * (1.0 - c);
        let c = (if self.d[0] < x { attack } else { release }) as f32;
        self.d[0] = x + c * (self.d[0] - x);
        let c = if self.d[1] < x { attack } else { release };
        self.d[1] += (1.0 - c) as f32 * (x - self.d[1]);
        let (p, q) = (self.a as f64, self.b);
        let (r, s) = (self.d[0] as f64, self.d[1] as f64);
        (p.min(q).min(r).min(s), p.max(q).max(r).max(s))
    }
}

fn db(x: f64) -> f64 {
    if x <= 10f64.powf(-128.0 / 20.0) {
        -128.0
    } else {
        20.0 * x.log10()
    }
}

/// gain in dB at a level
fn curve(e: f64, t: f64, k: f64, r: f64) -> f64 {
    if e <= t - k / 2.0 {
        0.0
    } else if e >= t + k / 2.0 {
        (e - t) * (1.0 / r - 1.0)
    } else {
        let x = e - t + k / 2.0;
        (1.0 / r - 1.0) * x * x / (2.0 * k)
    }
}

const NAMES: [&str; 7] = ["attack", "release", "ratio", "threshold", "knee", "wet", "dry"];

fn handle(b: &mut Compressor, k: usize) -> &mut AudioParameter {
    match k {
        0 => b.attack(),
        1 => b.release(),
        2 => b.ratio(),
        3 => b.threshold(),
        4 => b.knee(),
        5 => b.wet(),
        _ => b.dry(),
    }
}

fn value(c: &mut Case, k: usize, level_db: f64) -> f64 {
    match k {
        0 => match c.rng.below(4) {
            0 => 0.0,
            1 => 1000.0,
            _ => c.rng.log_uniform(0.05, 200.0),
        },
        1 => match c.rng.below(5) {
            0 => 0.0,
            1 => 10_000.0,
            2 => -5.0,
            _ => c.rng.log_uniform(0.05, 2000.0),
        },
        2 => match c.rng.below(5) {
            0 => 1.0,
            1 => {
                c.count("infinite_ratio", 1);
                f64::MAX
            }
            2 => 0.0,
            _ => c.rng.log_uniform(1.0, 40.0),
        },
        3 => match c.rng.below(6) {
            0 => -128.0,
            1 => 24.0,
            2 => 0.0,
            _ => (level_db + c.rng.uniform(-30.0, 6.0)).clamp(-128.0, 24.0),
        },
        4 => match c.rng.below(4) {
            0 => 0.0,
            1 => 24.0,
            _ => c.rng.uniform(0.0, 24.0),
        },
        _ => match c.rng.below(4) {
            0 => 0.0,
            1 => 1.0,
            2 => 10.0,
            _ => c.rng.uniform(0.0, 3.0),
        },
    }
}

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng);
    let ch = channels(&mut c.rng, 5);
    let mut e = Eng::new(sr, ch.max(5), maxf);
    let mut comp = Compressor::new(e.ctx.as_ref(), ch);
    comp.node.connect_to_input();
    comp.node.connect_to_output();
    let top = 10f64.powf(12.0 / 20.0);
    let ranges = [
        (1.0, 0.0, 1000.0),
        (10.0, 0.0, 10_000.0),
        (3.0, 1.0, f64::MAX),
        (0.0, -128.0, 24.0),
        (0.0, 0.0, 24.0),
        (1.0, 0.0, top),
        (0.0, 0.0, top),
    ];
    let spec: Vec<_> = (0..7).map(|k| (NAMES[k], ranges[k].0, ranges[k].1, ranges[k].2)).collect();
    let mut twin = Twin::new(e.ctx.as_ref(), &spec);
    for k in [0, 1, 3, 4, 5, 6] {
        twin.autos[k].exp = false;
    }
    let exact = c.rng.chance(0.15);
    let level: f64 = if exact {
        *c.rng.pick(&[1.0, 0.1, 0.5, 0.25, 10.0])
    } else {
        c.rng.log_uniform(1e-3, 4.0)
    };
    for k in 0..7 {
        if c.rng.chance(0.7) {
            let mut v = value(c, k, 20.0 * level.log10());
            if exact && k == 3 {
                v = 20.0 * (level as f64).log10();
            }
            if exact && k == 4 && c.rng.chance(0.7) {
                v = 0.0;
            }
            if exact && k <= 1 {
                v = 0.0;
            }
            twin.set_now(k, handle(&mut comp, k), v);
            c.note(format!("{} = {v}", NAMES[k]));
        }
    }
    let automate = !exact && c.rng.chance(0.4);
    let total = c.rng.range(50, 3000);
    // programme: segments of different kinds and levels
    let mut input: Sig = vec![Vec::with_capacity(total); ch];
    while input[0].len() < total {
        let n = c.rng.range(1, 800).min(total - input[0].len());
        let kind = if exact { 4 } else { c.rng.below(6) };
        let l = level * c.rng.log_uniform(0.05, 2.0);
        let fr = c.rng.log_uniform(20.0, 0.4 * sr as f64);
        for (k, s) in input.iter_mut().enumerate() {
            for i in 0..n {
                let x = match kind {
                    0 => 0.0,
                    1 => l * (std::f64::consts::TAU * fr * i as f64 / sr as f64).sin(),
                    2 if k == 0 => l,
                    2 => 0.0,
                    3 => -l,
                    4 => level,
                    _ => l * c.rng.uniform(-1.0, 1.0),
                };
                s.push(x as f32);
            }
        }
    }
    c.note(format!("sr={sr} x{ch} maxf={maxf} total={total} automate={automate} exact={exact}"));
    e.ctx.start();
    let sizes = partition(&mut c.rng, total, maxf, &[]);
    let p_cmd = (12.0 / sizes.len() as f64).min(0.5);
    let mut env = vec![Follower::new(); ch];
    let (mut n_red, mut n_un) = (0, 0);
    let mut co = [(-1.0f32, 0.0f64); 2];
    for n in sizes {
        let at = e.pos;
        while automate && c.rng.chance(p_cmd) && twin.autos.iter().all(|a| a.free < at as f64 + 1000.0) {
            let k = c.rng.below(7);
            let v = value(c, k, 20.0 * level.log10());
            let mut notes = Vec::new();
            twin.change(&mut c.rng, k, handle(&mut comp, k), at, sr, v, &mut |s| notes.push(s));
            for s in notes {
                c.note(format!("{} {s}", NAMES[k]));
            }
            c.count("automated", 1);
        }
        let mut out = new_sig(ch);
        e.block(&input, &mut out, n);
        let p = twin.take();
        for f in 0..n {
            twin.advance(at + f);
            for k in 0..2 {
                if co[k].0 != p[k][f] {
                    co[k] = (p[k][f], coefficient(sr as f64, p[k][f] as f64 / 1000.0));
                }
            }
            let (mut lo, mut hi) = (0.0, 0.0);
            for k in 0..ch {
                let (a, b) = env[k].next(input[k][at + f], co[0].1, co[1].1);
                lo += a / ch as f64;
                hi += b / ch as f64;
            }
            let (r, t, kn) = (p[2][f] as f64, p[3][f] as f64, p[4][f] as f64);
            let (wet, dry) = (p[5][f] as f64, p[6][f] as f64);
            let (dl, dh) = (db(lo * (1.0 - 1e-5)) - 2e-5, db(hi * (1.0 + 1e-5)) + 2e-5);
            let (g_hi, g_lo) = (10f64.powf(curve(dl, t, kn, r) / 20.0), 10f64.powf(curve(dh, t, kn, r) / 20.0));
            let region = if dh <= t - kn / 2.0 {
                n_un += 1;
                "below_knee"
            } else if dl >= t + kn / 2.0 {
                n_red += (r > 1.001) as usize;
                "above_knee"
            } else if kn > 0.0 {
                n_red += (r > 1.001) as usize;
                "in_knee"
            } else {
                "exactly_at_threshold"
            };
            c.count(region, 1);
            if exact && (db(level as f32 as f64) as f32) == p[3][f] && kn == 0.0 {
                c.count("exactly_at_threshold", 1);
            }
            if wet > 0.0 && dry > 0.0 {
                c.count("dry_and_wet", 1);
            }
            for k in 0..ch {
                let x = input[k][at + f] as f64;
                if x == 0.0 {
                    c.count("silence", 1);
                }
                let (a, b) = (x * (g_lo * wet + dry), x * (g_hi * wet + dry));
                let tol = 5e-5 * a.abs().max(b.abs()) + 4.5e-7 * x.abs() * (1.0 + dry + wet);
                if !in_hull(out[k][f], a, b, tol) {
                    return fail(
                        "curve",
                        format!(
                            "channel {k} frame {}: {} for input {x}, expected {a}..{b} ({region}: level {dl}..{dh} dB, threshold {t} ratio {r} knee {kn} wet {wet} dry {dry})",
                            at + f,
                            out[k][f]
                        ),
                    );
                }
                if dry == 0.0 && !(out[k][f].abs() as f64 <= x.abs() * wet * (1.0 + 1e-6) + 4e-7 * x.abs()) {
                    return fail("amplified", format!("channel {k} frame {}: {} for input {x} with wet {wet}", at + f, out[k][f]));
                }
            }
        }
        c.count("samples_compared", n * ch);
    }
    c.nontrivial = n_red > 0 && n_un > 0;
    Ok(())
}
