//! C02: the same program cut into blocks in different ways.
use crate::core::*;
use crate::eng::*;
use crate::program::*;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "random programs over every node type (graphs of up to 12 nodes, created, connected, disconnected and dropped while rendering, with automation, sampler, ADSR and recorder events, stops and starts) rendered three or four times with different maximum frame counts and different cuts into process calls, comparing every sample, recording, meter reading and clock value; non-trivial = the output is not silent and at least 4 node types were used",
        quick_cases: 6_000,
        thorough_cases: 200_000,
        parallel: true,
        assumptions: &["differences up to 1e-4 of the peak are rounding (4e-6 in programs without ramps)"],
        required: &["without_ramps", "gain", "pan", "oscillator", "sampler", "mixer", "biquad", "compressor", "adsr", "convolution", "envelope", "recorder", "waveshaper", "recordings", "peaks", "one_frame_blocks", "split_calls"],
        case,
    }
}

pub fn compare(a: &Outcome, b: &Outcome, rel: f64) -> Res {
    let peak = a.out.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs() as f64));
    if let Some((c, i)) = first_diff_sig(&b.out, &a.out, rel * (peak + 0.1), rel) {
        return fail(
            "output",
            format!(
                "channel {c} frame {i}: {:?} in one run, {:?} in the other (peak {peak})",
                a.out[c].get(i),
                b.out[c].get(i)
            ),
        );
    }
    if a.recording != b.recording {
        return fail("recording", format!("recording flags differ: {:?} and {:?}", a.recording, b.recording));
    }
    if a.recordings.len() != b.recordings.len() {
        return fail("recordings", format!("{} recordings and {}", a.recordings.len(), b.recordings.len()));
    }
    for (x, y) in a.recordings.iter().zip(&b.recordings) {
        let peak = x.1.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs() as f64));
        if x.0 != y.0 || x.1.len() != y.1.len() || first_diff_sig(&y.1, &x.1, rel * (peak + 0.1), rel).is_some() {
            return fail("recordings", format!("recordings of node {} ({} frames) and {} ({}) differ", x.0, x.1[0].len(), y.0, y.1[0].len()));
        }
    }
    if a.peaks.len() != b.peaks.len() {
        return fail("peaks", format!("{} meter readings and {}", a.peaks.len(), b.peaks.len()));
    }
    for (x, y) in a.peaks.iter().zip(&b.peaks) {
        if x.0 != y.0 || x.1 != y.1 || !((x.2 - y.2).abs() as f64 <= rel * (1.0 + x.2.abs() as f64)) {
            return fail("peaks", format!("meter readings differ: {x:?} and {y:?}"));
        }
    }
    if a.clock.iter().zip(&b.clock).any(|(x, y)| (x - y).abs() > 1e-8) {
        return fail("clock", format!("clock readings {:?} and {:?}", a.clock, b.clock));
    }
    Ok(())
}

fn case(c: &mut Case) -> Res {
    let mut sh = Shape::default();
    let thorough = c.thorough();
    match c.index % 8 {
        0 => sh.max_nodes = 30,
        1 | 2 => sh.max_nodes = 5,
        3 => {
            sh.convolution = false;
            sh.steps = true;
        }
        4 => sh.max_total = 20_000,
        _ => {}
    }
    let mut p = generate(&mut c.rng, sh);
    // Without ramps, whose values depend on rounded times, nothing is rounded differently
    let rel = if c.index % 3 == 1 {
        for (_, act) in &mut p.acts {
            if let Act::Param(_, _, op) = act {
                if let Op::Lin(v, _, t) | Op::Exp(v, _, t) = *op {
                    *op = Op::Set(v, t);
                }
            }
        }
        c.count("without_ramps", 1);
        4e-6
    } else {
        1e-4
    };
    describe(c, &p);
    let m0 = max_frames(&mut c.rng);
    let s0 = c.rng.u64();
    let a = render(&p, m0, s0);
    for s in &p.specs {
        c.count(s.name(), 1);
    }
    c.count("recordings", a.recordings.len());
    c.count("peaks", a.peaks.len());
    let n = if thorough { 5 } else { 2 };
    for _ in 0..n {
        let m = if c.rng.chance(0.3) { m0 } else { max_frames(&mut c.rng) };
        if m == 1 {
            c.count("one_frame_blocks", 1);
        }
        if m < p.total / 8 {
            c.count("split_calls", 1);
        }
        let s = c.rng.u64();
        let b = render(&p, m, s);
        c.count("runs", 1);
        c.count("samples", p.total * p.out_ch);
        compare(&a, &b, rel).map_err(|mut v| {
            if c.verbose {
                let q = minimize(&p, &mut |q| compare(&render(q, m0, s0), &render(q, m, s), rel).is_err_and(|w| w.sig == v.sig));
                c.desc.clear();
                eprintln!("smaller:");
                describe(c, &q);
                eprintln!("{:?}", compare(&render(&q, m0, s0), &render(&q, m, s), rel));
            }
            v.msg = format!("maximum frame counts {m0} and {m}: {}", v.msg);
            v
        })?;
    }
    let mut kinds: Vec<_> = p.specs.iter().map(|s| s.name()).collect();
    kinds.sort();
    kinds.dedup();
    c.nontrivial = kinds.len() >= 4 && a.out.iter().flatten().any(|v| v.abs() > 1e-3);
    Ok(())
}
