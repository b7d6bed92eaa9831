//! C14 oscillator: every sample against a reference phase accumulator fed
//! with the parameter values observed by a twin node.
use crate::core::*;
use crate::eng::*;
use crate::model::*;
use rawdio::*;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "sine, harmonic and custom-table oscillators (3 to 8192 points, 1-6 channels) at random and exactly divisible frequencies, with sets and ramps of frequency and gain, irregular blocks, some of them for a very long time; every sample compared with the reference; non-trivial = the phase wrapped at least 3 times",
        quick_cases: 12_000,
        thorough_cases: 150_000,
        parallel: true,
        assumptions: &["the first sample is read after one phase increment"],
        required: &["custom_tables", "sine", "harmonic", "wraps", "exact_divisors", "automated", "long"],
        case,
    }
}

struct Reference {
    phase: f64,
    table: Vec<f64>,
    /// analytic harmonics instead of the table
    harmonics: Option<Vec<f64>>,
}

impl Reference {
    fn next(&mut self, f: f32, sr: usize) -> (f64, f64, bool) {
        let old = self.phase;
        self.phase += f as f64 / sr as f64;
        self.phase -= self.phase.floor();
        let wrapped = self.phase < old;
        if let Some(h) = &self.harmonics {
            let v = h
                .iter()
                .enumerate()
                .map(|(k, l)| l * (std::f64::consts::TAU * (k + 1) as f64 * self.phase).sin())
                .sum();
            // linear interpolation of the table
            let tol: f64 = h.iter().enumerate().map(|(k, l)| l.abs() * ((k + 1) as f64).powi(2) * 1e-7).sum();
            return (v, tol + 1e-7, wrapped);
        }
        let n = self.table.len();
        let o = self.phase * n as f64;
        let i = o.floor() as usize;
        let w = o - o.floor();
        let (a, b) = (self.table[i % n], self.table[(i + 1) % n]);
        (a * (1.0 - w) + b * w, 1e-7, wrapped)
    }
}

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng);
    let ch = channels(&mut c.rng, 6);
    let mut e = Eng::new(sr, ch.max(6), maxf);
    let top = 20_000.0;
    let divisor = c.rng.chance(0.3);
    let f0 = if divisor {
        c.count("exact_divisors", 1);
        let k = c.rng.range(1 + sr / 20_000, (sr / 20).min(64));
        sr as f64 / k as f64
    } else {
        c.rng.log_uniform(20.0, top)
    };
    let f0 = f0.clamp(20.0, top);
    let kind = c.rng.below(4);
    let (mut osc, mut r) = match kind {
        0 => {
            c.count("sine", 1);
            let o = Oscillator::sine(e.ctx.as_ref(), f0, ch);
            (o, Reference { phase: 0.0, table: vec![], harmonics: Some(vec![1.0]) })
        }
        1 => {
            c.count("harmonic", 1);
            let n = c.rng.range(0, 12);
            let h: Vec<f64> = (0..n)
                .map(|_| if c.rng.chance(0.2) { 0.0 } else { c.rng.uniform(0.0, 1.5) })
                .collect();
            let levels: Vec<Level> = h.iter().map(|l| Level::from_linear(*l)).collect();
            let o = Oscillator::with_harmonics(e.ctx.as_ref(), f0, ch, &levels);
            c.note(format!("harmonics {h:?}"));
            (o, Reference { phase: 0.0, table: vec![], harmonics: Some(h) })
        }
        _ => {
            c.count("custom_tables", 1);
            let n = match c.rng.below(4) {
                0 => c.rng.range(3, 8),
                1 => *c.rng.pick(&[16, 64, 1024, 2048]),
                2 => c.rng.range(3, 3000),
                _ => c.rng.range(3, 100),
            };
            let t: Vec<f64> = (0..n).map(|_| c.rng.uniform(-1.0, 1.0)).collect();
            c.note(format!("table of {n}"));
            let o = Oscillator::new(e.ctx.as_ref(), f0, ch, t.clone());
            (o, Reference { phase: 0.0, table: t, harmonics: None })
        }
    };
    let mut twin = Twin::new(
        e.ctx.as_ref(),
        &[
            ("frequency", f0, 20.0, top),
            ("gain", 1.0, f64::NEG_INFINITY, f64::INFINITY),
        ],
    );
    twin.autos[1].exp = false;
    osc.node.connect_to_output();
    e.ctx.start();
    let long = c.rng.chance(0.03);
    let total = if long { c.rng.range(50_000, 300_000) } else { c.rng.range(20, 4000) };
    let sizes = if long {
        c.count("long", 1);
        partition(&mut c.rng, total, maxf.max(64), &[])
    } else {
        partition(&mut c.rng, total, maxf, &[])
    };
    c.note(format!("kind={kind} f={f0} sr={sr} x{ch} maxf={maxf} total={total}"));
    let automate = c.rng.chance(0.6);
    let p_cmd = (15.0 / sizes.len() as f64).min(0.6);
    let mut wraps = 0;
    for n in sizes {
        let at = e.pos;
        while automate && c.rng.chance(p_cmd) && twin.autos.iter().all(|a| a.free < at as f64 + 1500.0) {
            c.count("automated", 1);
            let mut notes = Vec::new();
            let k = c.rng.below(2);
            let v = if k == 0 {
                match c.rng.below(6) {
                    0 => 20.0,
                    1 => 20_000.0,
                    2 => 1.0,
                    3 => sr as f64 / 4.0,
                    _ => c.rng.log_uniform(20.0, 20_000.0),
                }
            } else {
                match c.rng.below(5) {
                    0 => 0.0,
                    1 => 1.0,
                    2 => -1.0,
                    _ => c.rng.uniform(-2.0, 2.0),
                }
            };
            let h = if k == 0 { osc.frequency() } else { osc.gain() };
            twin.change(&mut c.rng, k, h, at, sr, v, &mut |s| notes.push(s));
            for s in notes {
                c.note(format!("p{k} {s}"));
            }
        }
        let mut out = new_sig(ch);
        e.block(&vec![], &mut out, n);
        let p = twin.take();
        for f in 0..n {
            twin.advance(at + f);
            let (v, tol, w) = r.next(p[0][f], sr);
            wraps += w as usize;
            let g = p[1][f] as f64;
            let got = out[0][f] as f64;
            if !((got - v * g).abs() <= (tol + 1e-6 * v.abs()) * g.abs() + 3e-7 * v.abs().max(1.0)) {
                return fail(
                    "osc",
                    format!("frame {}: {got} instead of {} (phase {}, frequency {}, gain {g})", at + f, v * g, r.phase, p[0][f]),
                );
            }
            for k in 1..ch {
                if out[k][f] != out[0][f] {
                    return fail("channels-differ", format!("frame {}: channel {k} is {}, channel 0 {}", at + f, out[k][f], got));
                }
            }
        }
        c.count("samples_compared", n * ch);
    }
    c.count("wraps", wraps);
    c.nontrivial = wraps >= 3;
    Ok(())
}
