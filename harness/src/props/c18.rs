//! C18 waveshaper: every sample against the named shape.
use crate::core::*;
use crate::eng::*;
use crate::model::*;
use rawdio::*;

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "tanh, soft saturation and hard clip at thresholds from 0 to 1 (and above), custom shapes, inputs from tiny to far outside [-1, 1], automated overdrive and mix, 1-5 channels, irregular blocks; every sample compared with the shape; non-trivial = at least 50 frames",
        quick_cases: 24_000,
        thorough_cases: 250_000,
        parallel: true,
        assumptions: &["the shape read at 511 points with linear interpolation, or exactly"],
        required: &["tanh", "soft", "hard", "custom", "outside", "threshold_0", "threshold_1", "automated", "dry_heard"],
        case,
    }
}

const POINTS: usize = 511;

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng);
    let ch = channels(&mut c.rng, 5);
    let mut e = Eng::new(sr, ch.max(5), maxf);
    let threshold = match c.rng.below(5) {
        0 => 0.0,
        1 => 1.0,
        _ => c.rng.f64(),
    };
    let t = threshold as f32 as f64;
    let kind = c.rng.below(4);
    if kind == 1 || kind == 2 {
        if threshold == 0.0 {
            c.count("threshold_0", 1);
        }
        if threshold == 1.0 {
            c.count("threshold_1", 1);
        }
    }
    let ctx = e.ctx.as_ref();
    let (mut ws, f): (Waveshaper, Box<dyn Fn(f64) -> f64>) = match kind {
        0 => {
            c.count("tanh", 1);
            (Waveshaper::tanh(ctx, ch), Box::new(|x| 2.0 * (x / 2.0).tanh()))
        }
        1 => {
            c.count("soft", 1);
            (
                Waveshaper::soft_saturator(ctx, ch, Level::from_linear(threshold)),
                Box::new(move |x| {
                    if x <= t {
                        x
                    } else {
                        t + (x - t) / (1.0 + ((x - t) / (1.0 - t)).powi(2))
                    }
                }),
            )
        }
        2 => {
            c.count("hard", 1);
            let t = if c.rng.chance(0.2) { t * 3.0 } else { t };
            (
                Waveshaper::hard_clip(ctx, ch, Level::from_linear(t)),
                Box::new(move |x| x.clamp(-t, t)),
            )
        }
        _ => {
            c.count("custom", 1);
            let (a, b, d) = (c.rng.uniform(-2.0, 2.0) as f32, c.rng.uniform(0.0, 8.0) as f32, c.rng.sample());
            let g = move |x: f32| a * (b * x).sin() + d * x * x + 0.1 * d;
            (Waveshaper::new(ctx, ch, &g), Box::new(move |x| g(x as f32) as f64))
        }
    };
    let table: Vec<f64> = (0..POINTS)
        .map(|i| f(-1.0 + 2.0 * i as f64 / (POINTS - 1) as f64))
        .collect();
    let steepest = table.windows(2).map(|w| (w[1] - w[0]).abs()).fold(0.0, f64::max);
    let scale = table.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let from_table = |x: f64| {
        let i = ((x + 1.0) / 2.0 * (POINTS - 1) as f64).clamp(0.0, (POINTS - 1) as f64);
        let k = (i.floor() as usize).min(POINTS - 2);
        let w = i - k as f64;
        table[k] * (1.0 - w) + table[k + 1] * w
    };
    ws.node.connect_to_input();
    ws.node.connect_to_output();
    let mut twin = Twin::new(ctx, &[("overdrive", 0.0, 0.0, 1.0), ("mix", 1.0, 0.0, 1.0)]);
    twin.autos[0].exp = false;
    twin.autos[1].exp = false;
    let total = c.rng.range(20, 2000);
    let amp = *c.rng.pick(&[1.0, 1.0, 0.01, 3.0, 1000.0]);
    let mut input: Sig = (0..ch)
        .map(|_| {
            (0..total)
                .map(|_| match c.rng.below(40) {
                    0 => 1.0,
                    1 => -1.0,
                    2 => 0.0,
                    3 => threshold as f32,
                    4 => -threshold as f32,
                    5 => f32::MAX / 10.0,
                    6 => 0.9999999,
                    _ => c.rng.sample() * amp,
                })
                .collect()
        })
        .collect();
    if c.rng.chance(0.3) {
        silences(&mut c.rng, &mut input, total / 4);
    }
    let sizes = partition(&mut c.rng, total, maxf, &[]);
    let p_cmd = (12.0 / sizes.len() as f64).min(0.5);
    let automate = c.rng.chance(0.6);
    c.note(format!("kind={kind} threshold={threshold} x{ch} maxf={maxf} total={total} amp={amp}"));
    e.ctx.start();
    for n in sizes {
        let at = e.pos;
        while automate && c.rng.chance(p_cmd) && twin.autos.iter().all(|a| a.free < at as f64 + 1000.0) {
            let k = c.rng.below(2);
            let v = match c.rng.below(6) {
                0 => 0.0,
                1 => 1.0,
                2 => -1.0,
                3 => 5.0,
                _ => c.rng.f64(),
            };
            let mut notes = Vec::new();
            let h = if k == 0 { ws.overdrive() } else { ws.mix() };
            twin.change(&mut c.rng, k, h, at, sr, v, &mut |s| notes.push(s));
            for s in notes {
                c.note(format!("p{k} {s}"));
            }
            c.count("automated", 1);
        }
        let mut out = new_sig(ch);
        e.block(&input, &mut out, n);
        let p = twin.take();
        for fr in 0..n {
            let i = at + fr;
            twin.advance(i);
            let (od, mix) = (p[0][fr] as f64, p[1][fr] as f64);
            let g = 10f64.powf(12.0 * od / 20.0);
            for k in 0..ch {
                let x = input[k][i] as f64;
                let z = x * g;
                if z.abs() > 1.0 {
                    c.count("outside", 1);
                }
                if mix < 1.0 {
                    c.count("dry_heard", 1);
                }
                let got = out[k][fr] as f64;
                let w1 = from_table(z) / g * mix + x * (1.0 - mix);
                let w2 = f(z.clamp(-1.0, 1.0)) / g * mix + x * (1.0 - mix);
                let tol = 2e-6 * w1.abs() + 2e-4 * steepest + 2e-6 * scale + 3e-7 * (x * (1.0 - mix)).abs() + 1e-9;
                if !((got - w1).abs() <= tol || (got - w2).abs() <= tol) {
                    return fail("shape", format!("channel {k} frame {i}: {got} for input {x}, expected {w1} (overdrive {od} mix {mix})"));
                }
            }
        }
        c.count("samples_compared", n * ch);
    }
    c.nontrivial = total >= 50;
    Ok(())
}
