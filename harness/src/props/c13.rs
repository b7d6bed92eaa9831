//! C13 gain and pan.
use crate::core::*;
use crate::eng::*;
use crate::model::*;
use rawdio::*;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "gain (1-6 channels) and pan nodes under random sets and ramps incl. zero, unity, negative, tiny and extreme values, irregular blocks; every sample compared with the law applied to the modelled parameter; non-trivial = at least 3 changes, at least 50 frames",
        quick_cases: 30_000,
        thorough_cases: 300_000,
        parallel: true,
        assumptions: &["gains within 1.2e-7 of zero or unity may be taken as zero or unity", "ramp samples within one sample period of the curve"],
        required: &["gain_samples", "pan_samples", "exact_silence", "held", "ramped"],
        case,
    }
}

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng);
    let is_pan = c.rng.chance(0.5);
    let ch = if is_pan { 2 } else { channels(&mut c.rng, 6) };
    let mut e = Eng::new(sr, ch.max(6), maxf);
    let base = if c.index % 16 == 3 { e.warp(&mut c.rng) } else { 0 };
    let mut gain = (!is_pan).then(|| Gain::new(e.ctx.as_ref(), ch));
    let mut pan = is_pan.then(|| Pan::new(e.ctx.as_ref(), 2));
    let node = match (&gain, &pan) {
        (Some(g), _) => &g.node,
        (_, Some(p)) => &p.node,
        _ => unreachable!(),
    };
    node.connect_to_input();
    node.connect_to_output();
    let mut a = if is_pan {
        Auto::new(0.0, -1.0, 1.0)
    } else {
        Auto::new(1.0, f64::NEG_INFINITY, f64::INFINITY)
    };
    e.ctx.start();
    let total = c.rng.range(20, 2500);
    c.note(format!("{} x{ch} maxf={maxf} total={total} from={base}", if is_pan { "pan" } else { "gain" }));
    let mut input = noise(&mut c.rng, ch, total);
    if c.rng.chance(0.3) {
        silences(&mut c.rng, &mut input, total / 4);
    }
    if !is_pan {
        input[0] = vec![1.0; total];
    }
    let sizes = partition(&mut c.rng, total, maxf, &[]);
    let p_cmd = (25.0 / sizes.len() as f64).min(0.7);
    let shifted: Sig = input.clone();
    for n in sizes {
        let at = e.pos;
        while c.rng.chance(p_cmd) && a.free < at as f64 + 1500.0 {
            let v = if is_pan {
                match c.rng.below(6) {
                    0 => 1.0,
                    1 => -1.0,
                    2 => 0.0,
                    3 => *c.rng.pick(&[3.0, -2.0]),
                    _ => c.rng.uniform(-1.0, 1.0),
                }
            } else {
                match c.rng.below(9) {
                    0 => 0.0,
                    1 => 1.0,
                    2 => -1.0,
                    3 => 1e-6,
                    4 => 1.0 + 1e-5,
                    5 => 100.0,
                    6 => -1e-3,
                    _ => c.rng.uniform(-2.0, 2.0),
                }
            };
            let h = match (&mut gain, &mut pan) {
                (Some(g), _) => g.gain(),
                (_, Some(p)) => p.pan(),
                _ => unreachable!(),
            };
            let mut notes = Vec::new();
            a.change(&mut c.rng, &mut [h], at, sr, v, &mut |s| notes.push(s));
            for s in notes {
                c.note(s);
            }
        }
        // Eng::block indexes the input by absolute position
        let mut out = new_sig(ch);
        let pos = e.pos;
        e.pos = pos - base;
        e.block(&shifted, &mut out, n);
        e.pos = pos + n;
        for f in 0..n {
            let (lo, hi) = a.model.step(at + f);
            c.count(if lo == hi { "held" } else { "ramped" }, 1);
            let law = |p: f64, k: usize| match (is_pan, k) {
                (false, _) => p,
                (true, 0) => (1.0 - p).min(1.0),
                (true, _) => (1.0 + p).min(1.0),
            };
            for k in 0..ch {
                let x = input[k][at - base + f] as f64;
                let (p, q) = (law(lo, k) * x, law(hi, k) * x);
                let g = out[k][f];
                let tol = 1e-6 * p.abs().max(q.abs()) + 3e-7 * x.abs();
                if !in_hull(g, p, q, tol) {
                    return fail(
                        if is_pan { "pan" } else { "gain" },
                        format!("channel {k} frame {}: {g} for input {x}, parameter {lo}..{hi} (expected {p}..{q})", at + f),
                    );
                }
                if lo == hi && law(lo, k) == 0.0 {
                    c.count("exact_silence", 1);
                    if g != 0.0 {
                        return fail("not-silent", format!("channel {k} frame {}: {g} at zero gain", at + f));
                    }
                }
                if is_pan && !(g.abs() as f64 <= x.abs()) {
                    return fail("over-unity", format!("pan output {g} exceeds its input {x}"));
                }
                if !is_pan && k > 0 {
                    // every channel has exactly the gain channel 0 has
                    let want = x * out[0][f] as f64;
                    if !((g as f64 - want).abs() <= 1e-6 * want.abs() + 3e-7 * x.abs()) {
                        return fail("channels-differ", format!("channel {k} frame {}: {g}, but the gain of channel 0 gives {want}", at + f));
                    }
                }
            }
        }
        c.count(if is_pan { "pan_samples" } else { "gain_samples" }, ch * n);
    }
    c.nontrivial = a.made >= 3 && total >= 50;
    Ok(())
}
