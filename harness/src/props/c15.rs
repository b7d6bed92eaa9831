//! C15 biquad: comparison with reference filters derived from the analogue
//! prototypes, stability and decay monitors.
use crate::core::*;
use crate::eng::*;
use crate::model::*;
use rawdio::*;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "biquads of all six types with parameters over their whole ranges (set before the start, or automated while running), 1-4 channels of noise or silence, then silence until the poles have decayed; static filters compared with the reference sample by sample, automated ones too (direct form or transposed) and again once at rest; non-trivial = at least 200 frames of noise",
        quick_cases: 12_000,
        thorough_cases: 80_000,
        parallel: true,
        assumptions: &["frequency below Nyquist", "shelf gains below -114 dB may be taken as anything below that", "automation is a finite number of sets and ramps"],
        required: &["static_frames", "automated_frames", "decayed", "shelf_zero", "silences", "beyond_nyquist", "slow_sweeps", "silent_channels", "lowpass", "highpass", "bandpass", "notch", "highshelf", "lowshelf"],
        case,
    }
}

/// bilinear transform of (n2 s^2 + n1 s + n0) / (d2 s^2 + d1 s + d0), s normalised to the centre
fn bilinear(n: [f64; 3], d: [f64; 3], f: f64, sr: f64) -> [f64; 5] {
    let k = 1.0 / (std::f64::consts::PI * f / sr).tan();
    let t = |p: [f64; 3]| {
        [
            p[2] * k * k + p[1] * k + p[0],
            2.0 * (p[0] - p[2] * k * k),
            p[2] * k * k - p[1] * k + p[0],
        ]
    };
    let (b, a) = (t(n), t(d));
    [b[0] / a[0], b[1] / a[0], b[2] / a[0], a[1] / a[0], a[2] / a[0]]
}

fn coefficients(ty: usize, f: f64, q: f64, g: f64, sr: f64) -> [f64; 5] {
    floored(ty, f, q, g, sr, 1e-6)
}

fn floored(ty: usize, f: f64, q: f64, g: f64, sr: f64, floor: f64) -> [f64; 5] {
    let d = [1.0, 1.0 / q, 1.0];
    let a = g.max(floor).sqrt();
    let s = (2.0 * a).sqrt();
    match ty {
        0 => bilinear([0.0, 0.0, 1.0], d, f, sr), // high pass: s^2
        1 => bilinear([1.0, 0.0, 0.0], d, f, sr), // low pass
        2 => bilinear([0.0, 1.0 / q, 0.0], d, f, sr),
        3 => bilinear([1.0, 0.0, 1.0], d, f, sr),
        4 => bilinear([a, a * s, a * a], [a, s, 1.0], f, sr), // high shelf
        _ => bilinear([a * a, a * s, a], [1.0, s, a], f, sr), // low shelf
    }
}

fn radius(c: &[f64; 5]) -> f64 {
    let (a1, a2) = (c[3], c[4]);
    let disc = a1 * a1 - 4.0 * a2;
    if disc < 0.0 {
        a2.sqrt()
    } else {
        let s = disc.sqrt();
        ((-a1 + s) / 2.0).abs().max(((-a1 - s) / 2.0).abs())
    }
}

#[derive(Clone, Default)]
struct Df1([f64; 4]);
impl Df1 {
    fn next(&mut self, c: &[f64; 5], x: f64) -> f64 {
        let [x1, x2, y1, y2] = self.0;
        let y = c[0] * x + c[1] * x1 + c[2] * x2 - c[3] * y1 - c[4] * y2;
        self.0 = [x, x1, y, y1];
        y
    }
}
#[derive(Clone, Default)]
struct Tdf2([f64; 2]);
impl Tdf2 {
    fn next(&mut self, c: &[f64; 5], x: f64) -> f64 {
        let y = c[0] * x + self.0[0];
        self.0[0] = c[1] * x - c[3] * y + self.0[1];
        self.0[1] = c[2] * x - c[4] * y;
        y
    }
}

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng).max(7);
    let ch = channels(&mut c.rng, 4);
    let mut e = Eng::new(sr, ch.max(4), maxf);
    let ty = c.rng.below(6);
    let types = [
        BiquadFilterType::HighPass,
        BiquadFilterType::LowPass,
        BiquadFilterType::BandPass,
        BiquadFilterType::Notch,
        BiquadFilterType::HighShelf,
        BiquadFilterType::LowShelf,
    ];
    let name = ["highpass", "lowpass", "bandpass", "notch", "highshelf", "lowshelf"][ty];
    let mut b = Biquad::new(e.ctx.as_ref(), ch, types[ty]);
    b.node.connect_to_input();
    b.node.connect_to_output();
    let g_max = 100_000.0;
    let mut twin = Twin::new(
        e.ctx.as_ref(),
        &[
            ("frequency", 1000.0, 20.0, 20_000.0),
            ("q", 0.5f64.sqrt(), 0.1, 10.0),
            ("shelf-gain", 1.0, 0.0, g_max),
            ("gain", 1.0, 0.0, g_max),
        ],
    );
    twin.autos[0].exp = true;
    let f_top = (0.48 * sr as f64).min(20_000.0);
    // at low rates also settings that make no sense: they only have to stay finite
    let beyond = sr < 41_000 && c.rng.chance(0.3);
    if beyond {
        c.count("beyond_nyquist", 1);
    }
    let pick = |r: &mut Rng, k: usize| -> f64 {
        match k {
            0 if beyond => r.uniform(0.4 * sr as f64, 20_000.0),
            0 if r.chance(0.03) => 1.0,
            1 if r.chance(0.06) => *r.pick(&[0.0, 100.0]),
            3 if r.chance(0.06) => -1.0,
            0 => match r.below(5) {
                0 => 20.0,
                1 => f_top,
                _ => r.log_uniform(20.0, f_top),
            },
            1 => match r.below(5) {
                0 => 0.1,
                1 => 10.0,
                _ => r.log_uniform(0.1, 10.0),
            },
            2 => match r.below(6) {
                0 => 0.0,
                1 => g_max,
                2 => 1.0,
                _ => r.log_uniform(1e-3, 100.0),
            },
            _ => match r.below(4) {
                0 => 0.0,
                1 => 1.0,
                _ => r.uniform(0.0, 4.0),
            },
        }
    };
    fn handle(b: &mut Biquad, k: usize) -> &mut AudioParameter {
        match k {
            0 => b.frequency(),
            1 => b.q(),
            2 => b.shelf_gain(),
            _ => b.gain(),
        }
    }
    for k in 0..4 {
        if c.rng.chance(0.75) || (k == 0 && sr < 4100) {
            let v = pick(&mut c.rng, k);
            twin.set_now(k, handle(&mut b, k), v);
            c.note(format!("p{k} = {v}"));
        }
    }
    let automate = c.rng.chance(0.5);
    // a parameter hardly moving from one sample to the next, but going on
    let slow = !beyond && c.rng.chance(0.2);
    let total = if slow { c.rng.range(2000, 9000) } else { c.rng.range(100, 4000) };
    let amp = c.rng.log_uniform(1e-2, 10.0) as f32;
    let mut input = noise(&mut c.rng, ch, total);
    let silent = if ch > 1 && c.rng.chance(0.5) { c.rng.below(ch) } else { ch };
    for (k, s) in input.iter_mut().enumerate() {
        for x in s.iter_mut() {
            *x = if k == silent { 0.0 } else { *x * amp };
        }
    }
    if c.rng.chance(0.4) {
        silences(&mut c.rng, &mut input, total / 4);
        c.count("silences", 1);
    }
    if silent < ch {
        c.count("silent_channels", 1);
    }
    c.note(format!("{name} sr={sr} x{ch} maxf={maxf} total={total} automate={automate} amp={amp}"));
    c.tag(name);
    e.ctx.start();
    if slow {
        let k = *c.rng.pick(&[0, 0, 0, 1, 2, 3]);
        let from = match k {
            0 => c.rng.log_uniform(20.0, f_top.min(2000.0)),
            _ => c.rng.log_uniform(0.2, 5.0),
        };
        let to = from * (1.0 + *c.rng.pick(&[1.0, -1.0]) * c.rng.log_uniform(0.005, 0.3));
        twin.set_now(k, handle(&mut b, k), from);
        twin.ramp(k, handle(&mut b, k), 2.5, total as f64 - 100.0, sr, to);
        c.note(format!("p{k} from {from} slowly to {to}"));
        c.count("slow_sweeps", 1);
    }
    let mut sizes = partition(&mut c.rng, total, maxf, &[]);
    let noisy = sizes.len();
    sizes.push(1); // placeholder for the tail, decided below
    let p_cmd = (12.0 / noisy as f64).min(0.5);
    let mut r1 = vec![Df1::default(); ch];
    let mut r2 = vec![Tdf2::default(); ch];
    // how the two references do so far
    let mut bad1: Option<String> = None;
    let mut bad2: Option<String> = None;
    let mut peak = vec![1e-3f64; ch];
    let mut peak_out = vec![1e-3f64; ch];
    let mut last: Option<(f32, f32, f32)> = None;
    let mut co = [0.0; 5];
    let mut moved = 0usize;
    let mut tail = 0;
    let mut bi = 0;
    while bi < sizes.len() {
        let at = e.pos;
        if bi < noisy {
            while automate && c.rng.chance(p_cmd) && twin.autos.iter().all(|a| a.free < at as f64 + 1000.0) {
                let k = c.rng.below(4);
                let v = pick(&mut c.rng, k);
                let mut notes = Vec::new();
                twin.change(&mut c.rng, k, handle(&mut b, k), at, sr, v, &mut |s| notes.push(s));
                for s in notes {
                    c.note(format!("p{k} {s}"));
                }
            }
        } else if bi == noisy {
            // silence until every change has happened
            let free = twin.autos.iter().map(|a| a.free).fold(0.0, f64::max);
            sizes[bi] = (free as usize + 2).saturating_sub(at) + 8;
            sizes.push(0);
        } else if bi == noisy + 1 {
            let l = last.unwrap();
            let rad = [1e-6, 1e-7, 1e-8]
                .iter()
                .map(|fl| radius(&floored(ty, l.0 as f64, l.1 as f64, l.2 as f64, sr as f64, *fl)))
                .fold(0.0, f64::max);
            let biggest = peak.iter().cloned().fold(1e-3, f64::max) * 1e5;
            let need = ((biggest / 1e-46).ln() / -rad.ln()) * 1.05 + 64.0;
            let limit = if c.thorough() { 6e6 } else { 1.5e6 };
            if beyond || !(need < limit) {
                break;
            }
            tail = need as usize;
            sizes[bi] = tail + 64;
        }
        let n = sizes[bi];
        let mut out = new_sig(ch);
        e.block(&input, &mut out, n);
        let p = twin.take();
        let in_tail = bi == noisy + 1;
        for f in 0..n {
            twin.advance(at + f);
            let now = (p[0][f], p[1][f], p[2][f]);
            if last != Some(now) {
                co = coefficients(ty, now.0 as f64, now.1 as f64, now.2 as f64, sr as f64);
                if last.is_some() {
                    moved += 1;
                }
                last = Some(now);
            }
            let g = p[3][f] as f64;
            for k in 0..ch {
                let got = out[k][f] as f64;
                if !got.is_finite() {
                    return fail("not-finite", format!("{name} channel {k} frame {}: {got}, parameters {now:?}", at + f));
                }
                if k == silent && got != 0.0 {
                    return fail("leak", format!("{name}: silent channel {k} has {got} at frame {}", at + f));
                }
                if in_tail {
                    if f >= tail && got != 0.0 {
                        return fail("no-decay", format!("{name} channel {k}: {got} still there {f} frames after the input and all changes ended, parameters {now:?} radius {}", radius(&co)));
                    }
                    continue;
                }
                let x = input[k].get(at + f).copied().unwrap_or(0.0) as f64;
                let (y1, y2) = (r1[k].next(&co, x), r2[k].next(&co, x));
                peak[k] = peak[k].max(y1.abs()).max(y2.abs());
                peak_out[k] = peak_out[k].max((y1 * g).abs());
                let shelf_floor = ty >= 4 && now.2 < 2e-6;
                if beyond {
                    continue;
                }
                if shelf_floor {
                    c.count("shelf_zero", 1);
                    // what is left of a shelf below -120 dB is not compared
                    bad1.get_or_insert("shelf".into());
                    bad2.get_or_insert("shelf".into());
                    continue;
                }
                // a fixed filter has to match in either form
                let tol = |y: f64| 5e-6 * peak[k] * g + 1e-6 * (y * g).abs() + 1e-7;
                for (y, bad) in [(y1, &mut bad1), (y2, &mut bad2)] {
                    if bad.is_none() && !((got - y * g).abs() <= tol(y)) {
                        *bad = Some(format!("{name} channel {k} frame {}: {got} instead of {} (parameters {now:?} gain {g})", at + f, y * g));
                    }
                }
                if bad1.is_some() && bad2.is_some() && bad1.as_deref() != Some("shelf") && bad2.as_deref() != Some("shelf") {
                    return fail("response", bad1.unwrap());
                }
            }
        }
        c.count(if moved > 0 && n > 0 { "automated_frames" } else { "static_frames" }, n);
        bi += 1;
    }
    if tail > 0 {
        c.count("decayed", 1);
    }
    c.count(name_static(ty), 1);
    c.nontrivial = total >= 200;
    Ok(())
}

fn name_static(ty: usize) -> &'static str {
    ["highpass", "lowpass", "bandpass", "notch", "highshelf", "lowshelf"][ty]
}
