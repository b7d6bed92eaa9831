//! C12 mixer: every output sample against the matrix in force.
use crate::core::*;
use crate::eng::*;
use rawdio::prelude::*;
use rawdio::*;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "mixers of every size up to 8x8 and the two constructors, with random histories of level settings (up to several hundred between two blocks, also before the start), irregular blocks; non-trivial = at least two different matrices heard",
        quick_cases: 20_000,
        thorough_cases: 200_000,
        parallel: true,
        assumptions: &["levels within 1.2e-7 of zero or unity may be taken as zero or unity"],
        required: &["matrices_heard", "large_batches", "unity", "splitter", "updates"],
        case,
    }
}

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng).max(16);
    let mut e = Eng::new(sr, 8, maxf);
    let (mut ins, mut outs) = (c.rng.range(1, 8), c.rng.range(1, 8));
    let kind = c.rng.below(6);
    let mut m = vec![vec![0.0f64; 8]; 8]; // [out][in]
    let mut mixer = match kind {
        0 => {
            outs = ins;
            for k in 0..ins {
                m[k][k] = 1.0;
            }
            c.count("unity", 1);
            Mixer::unity(e.ctx.as_ref(), ins)
        }
        1 => {
            (ins, outs) = (1, 2);
            m[0][0] = 1.0;
            m[1][0] = 1.0;
            c.count("splitter", 1);
            Mixer::mono_to_stereo_splitter(e.ctx.as_ref())
        }
        _ => Mixer::new(e.ctx.as_ref(), ins, outs),
    };
    c.note(format!("{ins}x{outs} kind={kind} maxf={maxf}"));
    c.tag(format!("{ins}x{outs}"));
    mixer.node.connect_to_input();
    mixer.node.connect_to_output();
    let total = c.rng.range(10, 1200);
    let input = noise(&mut c.rng, ins, total);
    let sizes = partition(&mut c.rng, total, maxf, &[]);
    let mut heard: Vec<Vec<Vec<f64>>> = Vec::new();
    let mut started = c.rng.chance(0.5);
    if started {
        e.ctx.start();
    }
    for n in sizes {
        if c.rng.chance(0.5) {
            let k = if c.rng.chance(0.1) { c.rng.range(30, 300) } else { c.rng.range(1, 10) };
            if k > 32 {
                c.count("large_batches", 1);
            }
            for _ in 0..k {
                let (i, o) = (c.rng.below(ins), c.rng.below(outs));
                let l = match c.rng.below(6) {
                    0 => Level::zero(),
                    1 => Level::unity(),
                    2 => Level::from_db(c.rng.uniform(-60.0, 12.0)),
                    3 => Level::from_linear(-1.0),
                    4 => Level::from_db(-128.0),
                    _ => Level::from_linear(c.rng.uniform(-2.0, 2.0)),
                };
                mixer.set_level(i, o, l);
                m[o][i] = l.as_linear();
                c.count("updates", 1);
            }
            c.note(format!("@{} {k} levels", e.pos));
        }
        if !started {
            // a call while stopped takes nothing away
            if c.rng.chance(0.5) {
                let mut o = new_sig(outs);
                let p = e.pos;
                e.block(&input, &mut o, n);
                e.pos = p;
            }
            e.ctx.start();
            started = true;
        }
        let at = e.pos;
        let mut out = new_sig(outs);
        e.block(&input, &mut out, n);
        for o in 0..outs {
            for f in 0..n {
                let (mut w, mut mag) = (0.0, 0.0);
                for i in 0..ins {
                    let x = input[i][at + f] as f64 * m[o][i];
                    w += x;
                    mag += x.abs();
                }
                let g = out[o][f] as f64;
                if !((g - w).abs() <= 1e-6 * mag + 4e-7) {
                    return fail("mix", format!("output {o} frame {} is {g} instead of {w} (levels {:?})", at + f, &m[o][..ins]));
                }
            }
        }
        c.count("samples_compared", outs * n);
        if heard.last() != Some(&m) {
            heard.push(m.clone());
        }
    }
    c.count("matrices_heard", heard.len());
    c.nontrivial = heard.len() >= 2;
    // it also shows what it was told
    for o in 0..outs {
        for i in 0..ins {
            if mixer.gain_matrix.get_level(i, o).as_linear() != m[o][i] {
                return fail("matrix", format!("the matrix shows {:?} for {i} -> {o}", mixer.gain_matrix.get_level(i, o)));
            }
        }
    }
    Ok(())
}
