//! C17 convolution: every sample against direct convolution.
use crate::core::*;
use crate::eng::*;
use crate::model::*;
use rawdio::*;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "impulses of 1 to several thousand frames (dense, sparse, single taps at any place) on 1-4 channels, noise, sparse and stepped inputs with silences longer and shorter than the impulse, irregular blocks, automated wet and dry; every sample compared with direct convolution; non-trivial = at least two blocks and a non-zero impulse and input",
        quick_cases: 24_000,
        thorough_cases: 60_000,
        parallel: true,
        assumptions: &["rounding of a single-precision FFT of the block"],
        required: &["impulse_longer_than_block", "impulse_shorter_than_block", "single_tap", "automated", "dry_heard", "silent_frames", "odd_blocks"],
        case,
    }
}

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng);
    let ch = channels(&mut c.rng, 4);
    let mut e = Eng::new(sr, ch.max(4), maxf);
    let len = match c.rng.below(6) {
        0 => 1,
        1 => c.rng.range(1, maxf + 1),
        2 => *c.rng.pick(&[2, 64, 63, 65, 512, 513, 1024]),
        3 => c.rng.range(1, if c.thorough() { 6000 } else { 2500 }),
        _ => c.rng.range(1, 300),
    };
    let kind = c.rng.below(4);
    let mut imp: Sig = vec![vec![0.0; len]; ch];
    for s in imp.iter_mut() {
        match kind {
            0 => {
                c.count("single_tap", 1);
                let k = match c.rng.below(3) {
                    0 => 0,
                    1 => len - 1,
                    _ => c.rng.below(len),
                };
                s[k] = *c.rng.pick(&[1.0, -0.5, 2.0]);
            }
            1 => {
                for _ in 0..c.rng.range(1, 6) {
                    let k = c.rng.below(len);
                    s[k] = c.rng.sample();
                }
            }
            2 => {
                for (i, x) in s.iter_mut().enumerate() {
                    *x = c.rng.sample() * (-4.0 * i as f32 / len as f32).exp();
                }
            }
            _ => {
                for x in s.iter_mut() {
                    *x = c.rng.sample();
                }
            }
        }
    }
    if len > maxf {
        c.count("impulse_longer_than_block", 1);
    } else if len < maxf {
        c.count("impulse_shorter_than_block", 1);
    }
    let mut conv = Convolution::new(e.ctx.as_ref(), ch, to_buffer(&imp, sr));
    conv.node.connect_to_input();
    conv.node.connect_to_output();
    let mut twin = Twin::new(e.ctx.as_ref(), &[("wet", 1.0, 0.0, 1.0), ("dry", 0.0, 0.0, 1.0)]);
    twin.autos[0].exp = false;
    twin.autos[1].exp = false;
    let total = c.rng.range(20, 3000).min(20 + 6_000_000 / len / ch);
    // tiny maximum block sizes mean one FFT per frame or two
    let total = total.min(20 + 400 * maxf);
    let in_kind = c.rng.below(3);
    let mut input: Sig = (0..ch)
        .map(|_| {
            (0..total)
                .map(|i| match in_kind {
                    0 => c.rng.sample(),
                    1 if c.rng.chance(0.01) || i == 0 => c.rng.sample(),
                    1 => 0.0,
                    _ => ((i / 100) % 3) as f32 - 1.0,
                })
                .collect()
        })
        .collect();
    if c.rng.chance(0.5) {
        let n = silences(&mut c.rng, &mut input, len + 2 * maxf);
        c.count("silent_frames", n);
    }
    let sizes = partition(&mut c.rng, total, maxf, &[]);
    if sizes.iter().any(|n| n % maxf != 0) {
        c.count("odd_blocks", 1);
    }
    let automate = c.rng.chance(0.5);
    if c.rng.chance(0.5) {
        twin.set_now(1, conv.dry(), 0.7);
    }
    let p_cmd = (8.0 / sizes.len() as f64).min(0.5);
    c.note(format!("impulse {len} kind={kind} x{ch} maxf={maxf} total={total} input={in_kind} blocks={}", sizes.len()));
    e.ctx.start();
    // direct convolution
    let conv_ref: Vec<Vec<f64>> = (0..ch)
        .map(|k| {
            let mut y = vec![0.0f64; total];
            for (j, h) in imp[k].iter().enumerate() {
                if *h != 0.0 {
                    for i in j..total {
                        y[i] += *h as f64 * input[k][i - j] as f64;
                    }
                }
            }
            y
        })
        .collect();
    let window = 2 * (len + maxf);
    let norm_h: Vec<f64> = imp.iter().map(|s| s.iter().map(|x| (*x as f64).powi(2)).sum::<f64>().sqrt()).collect();
    let mut energy: Vec<Vec<f64>> = Vec::new();
    for s in &input {
        let mut acc = vec![0.0];
        for x in s {
            acc.push(acc.last().unwrap() + (*x as f64).powi(2));
        }
        energy.push(acc);
    }
    let blocks = sizes.len();
    for n in sizes {
        let at = e.pos;
        while automate && c.rng.chance(p_cmd) && twin.autos.iter().all(|a| a.free < at as f64 + 1000.0) {
            let k = c.rng.below(2);
            let v = *c.rng.pick(&[0.0, 1.0, 0.5, 0.25, 2.0, -1.0]);
            let mut notes = Vec::new();
            let h = if k == 0 { conv.wet() } else { conv.dry() };
            twin.change(&mut c.rng, k, h, at, sr, v, &mut |s| notes.push(s));
            for s in notes {
                c.note(format!("p{k} {s}"));
            }
            c.count("automated", 1);
        }
        let mut out = new_sig(ch);
        e.block(&input, &mut out, n);
        let p = twin.take();
        for f in 0..n {
            let i = at + f;
            twin.advance(i);
            let (wet, dry) = (p[0][f] as f64, p[1][f] as f64);
            for k in 0..ch {
                let want = conv_ref[k][i] * wet + input[k][i] as f64 * dry;
                let hi = (i + maxf).min(total);
                let lo = i.saturating_sub(window);
                let norm_x = (energy[k][hi] - energy[k][lo]).max(0.0).sqrt();
                let tol = 4e-6 * norm_x * norm_h[k] * wet + 1e-6 * want.abs() + 1e-6;
                let got = out[k][f] as f64;
                if !((got - want).abs() <= tol) {
                    return fail("convolution", format!("channel {k} frame {i}: {got} instead of {want} (tolerance {tol}, wet {wet} dry {dry})"));
                }
                if dry > 0.0 {
                    c.count("dry_heard", 1);
                }
            }
        }
        c.count("samples_compared", n * ch);
    }
    c.nontrivial = blocks >= 2;
    Ok(())
}
