//! C24: the same program again, beside other engines, threads and nodes.
use crate::core::*;
use crate::eng::*;
use crate::program::*;
use std::sync::Barrier;

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "random programs over every node type rendered alone, then again after other engines and nodes were created, rendered and destroyed, with unconnected nodes added to the engine, and on several threads at once beside other programs; every output sample, recording and meter reading has to be the same bit for bit; non-trivial = the output is not silent and at least 4 node types were used",
        quick_cases: 900,
        thorough_cases: 60_000,
        parallel: false,
        assumptions: &["process calls of the same sizes"],
        required: &["repeats", "concurrent_runs", "bystander_nodes", "other_engines", "recordings", "peaks", "biquad", "convolution", "compressor", "sampler"],
        case,
    }
}

fn bits(o: &Outcome, slots: usize) -> (Vec<Vec<u32>>, Vec<(usize, Vec<Vec<u32>>)>, Vec<(usize, usize, u32)>, Vec<(usize, bool)>, Vec<u64>) {
    let b = |s: &Sig| -> Vec<Vec<u32>> { s.iter().map(|c| c.iter().map(|v| v.to_bits()).collect()).collect() };
    (
        b(&o.out),
        o.recordings.iter().filter(|x| x.0 < slots).map(|(k, s)| (*k, b(s))).collect(),
        o.peaks.iter().filter(|x| x.0 < slots).map(|(k, c, v)| (*k, *c, v.to_bits())).collect(),
        o.recording.iter().copied().filter(|x| x.0 < slots).collect(),
        o.clock.iter().map(|v| v.to_bits()).collect(),
    )
}

fn same(what: &str, a: &Outcome, b: &Outcome, slots: usize) -> Res {
    let (x, y) = (bits(a, slots), bits(b, slots));
    for c in 0..x.0.len() {
        if let Some(i) = (0..x.0[c].len()).find(|i| x.0[c][*i] != y.0[c][*i]) {
            return fail(
                "output",
                format!("{what}: channel {c} frame {i} is {:e}, it was {:e} alone", b.out[c][i], a.out[c][i]),
            );
        }
    }
    if x.1 != y.1 || x.3 != y.3 {
        return fail("recordings", format!("{what}: recordings differ"));
    }
    if x.2 != y.2 {
        return fail("peaks", format!("{what}: meter readings differ"));
    }
    if x.4 != y.4 {
        return fail("clock", format!("{what}: clock readings differ"));
    }
    Ok(())
}

fn case(c: &mut Case) -> Res {
    let mut sh = Shape {
        steps: true,
        max_total: 1500,
        ..Shape::default()
    };
    if c.index % 4 == 0 {
        sh.max_nodes = 30;
    }
    sh.hostile = c.index % 5 == 0;
    let p = generate(&mut c.rng, sh);
    describe(c, &p);
    let m = max_frames(&mut c.rng);
    let s = c.rng.u64();
    let a = render(&p, m, s);
    for s in &p.specs {
        c.count(s.name(), 1);
    }
    c.count("recordings", a.recordings.len());
    c.count("peaks", a.peaks.len());
    let b = render(&p, m, s);
    c.count("repeats", 1);
    same("again", &a, &b, p.slots)?;
    // after another engine, and while it still exists
    let other = generate(&mut c.rng, sh);
    let mut run = Run::new(&other, max_frames(&mut c.rng));
    let mut cut = cutter(c.rng.u64(), run.e.maxf);
    run.all(&mut cut, &mut |f, _| f());
    let keep = c.rng.chance(0.5);
    let kept = if keep { Some(run) } else { None };
    c.count("other_engines", 1);
    let b = render(&p, m, s);
    same("after another engine", &a, &b, p.slots)?;
    drop(kept);
    let q = with_bystanders(&p, &mut c.rng, sh);
    c.count("bystander_nodes", q.slots - p.slots);
    let b = render(&q, m, s);
    same("beside unconnected nodes", &a, &b, p.slots)?;
    // all at once
    let others: Vec<_> = (0..3).map(|_| (generate(&mut c.rng, sh), max_frames(&mut c.rng), c.rng.u64())).collect();
    let barrier = Barrier::new(6);
    let results: Vec<Outcome> = std::thread::scope(|sc| {
        for (p, m, s) in &others {
            let barrier = &barrier;
            sc.spawn(move || {
                barrier.wait();
                render(p, *m, *s)
            });
        }
        let hs: Vec<_> = (0..3)
            .map(|_| {
                let (barrier, p) = (&barrier, &p);
                sc.spawn(move || {
                    barrier.wait();
                    render(p, m, s)
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().ok()).collect()
    });
    for b in &results {
        c.count("concurrent_runs", 1);
        same("beside other threads", &a, b, p.slots)?;
    }
    let mut kinds: Vec<_> = p.specs.iter().map(|s| s.name()).collect();
    kinds.sort();
    kinds.dedup();
    c.nontrivial = kinds.len() >= 4 && a.out.iter().flatten().any(|v| v.abs() > 1e-3);
    Ok(())
}
