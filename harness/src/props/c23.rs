//! C23: nothing panics, hangs or turns non-finite.
use crate::core::*;
use crate::eng::*;
use crate::program::*;
use rawdio::prelude::*;
use rawdio::*;
use std::time::Duration;

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "random programs over every node type with parameters, times, levels, durations and loop points at and beyond their limits, odd sample rates and block sizes, no, few or too many channels, empty and huge calls, calls after the context is gone, graphs of hundreds of nodes, floods of every kind of message, notifications never collected; watched for panics on any thread, hangs, and non-finite samples; non-trivial = at least 4 node types or 100 nodes",
        quick_cases: 12_000,
        thorough_cases: 400_000,
        parallel: true,
        assumptions: &["finiteness is asked for where the gains of the program cannot exceed 1e24", "sample rates from 1000 Hz", "the preconditions in DESIGN.md"],
        required: &["calls", "samples", "hostile_parameters", "empty_calls", "huge_calls", "large_graphs", "floods", "uncollected", "odd_channels", "orphans", "bounded_programs", "short_loops", "odd_rates", "extreme_impulses"],
        case,
    }
}

/// How much louder than its input a program can become.
fn bound(p: &Program) -> f64 {
    let n = p.specs.len();
    let mut big: Vec<[f64; 8]> = p.specs.iter().map(|s| {
        let mut v = [0.0; 8];
        for (k, x) in s.params().iter().enumerate() {
            v[k] = x.4.abs();
        }
        v
    }).collect();
    let mut level = vec![1.0f64; n];
    let mut edges = Vec::new();
    let mut fed = vec![false; n];
    for (_, a) in &p.acts {
        match a {
            Act::Param(k, q, op) => {
                let v = match *op {
                    Op::Now(v) | Op::Set(v, _) | Op::Lin(v, ..) | Op::Exp(v, ..) => v,
                    _ => 0.0,
                };
                big[*k][*q] = big[*k][*q].max(v.abs());
            }
            Act::Level(k, _, _, v) => level[*k] = level[*k].max(v.abs()),
            Act::Connect(a, b) | Act::ConnectCh(a, b, ..) => edges.push((*a, *b)),
            Act::ToInput(k) => fed[*k] = true,
            _ => {}
        }
    }
    let input = p.input.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs() as f64));
    let mut out = vec![0.0f64; n];
    for _ in 0..n {
        let mut next = vec![0.0; n];
        for k in 0..n {
            let mut x = if fed[k] { input } else { 0.0 };
            for (a, b) in &edges {
                if *b == k {
                    x += out[*a];
                }
            }
            let b = &big[k];
            next[k] = match p.specs[k] {
                Spec::Gain(_) => x * b[0],
                Spec::Pan | Spec::Adsr(_) | Spec::Recorder(_) | Spec::Meter(..) => x,
                Spec::Osc(..) => 2.0 * b[1].max(1.0),
                Spec::Sampler(..) => 3.0,
                Spec::Mixer(i, ..) => x * i as f64 * level[k],
                Spec::Biquad(..) => x * b[3] * b[2].max(1.0) * b[1].max(10.0) * 1e3,
                Spec::Compressor(_) => x * (b[5] + b[6]),
                Spec::Conv(_, len, _) => x * (len as f64 * b[0] + b[1]),
                Spec::Shaper(..) => 10.0 * x + 10.0,
            };
        }
        if next == out {
            break;
        }
        out = next;
    }
    out.iter().fold(input, |m, v| if *v > m || v.is_nan() { *v } else { m })
}

fn case(c: &mut Case) -> Res {
    match c.index % 20 {
        3 => large(c),
        11 => floods(c),
        _ => programs(c),
    }
}

fn check_out(c: &mut Case, b: &OwnedAudioBuffer, what: &str) -> Res {
    c.count("calls", 1);
    c.count("samples", b.frame_count() * b.channel_count());
    for ch in 0..b.channel_count() {
        if b.frame_count() == 0 {
            break;
        }
        if let Some(i) = b.get_channel_data(SampleLocation::channel(ch)).iter().position(|v| !v.is_finite()) {
            return fail(
                "finite",
                format!("{what}: channel {ch} frame {i} of the output is {}", b.get_sample(SampleLocation::new(ch, i))),
            );
        }
    }
    Ok(())
}

fn odd_rate(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => *r.pick(&[1000, 1001, 2000, 384_000, 1_000_000, 7919]),
        1 => r.range(1000, 200_000),
        _ => rate(r),
    }
}

fn programs(c: &mut Case) -> Res {
    let mut sh = Shape {
        steps: true,
        hostile: c.index % 4 != 0,
        max_total: 3000,
        ..Shape::default()
    };
    sh.collect = c.rng.chance(0.6);
    sh.max_nodes = *c.rng.pick(&[3, 8, 12, 12, 25]);
    let mut p = generate(&mut c.rng, sh);
    p.sr = odd_rate(&mut c.rng);
    if ![8000, 11_025, 22_050, 32_000, 44_100, 44_101, 48_000, 88_200, 96_000, 192_000].contains(&p.sr) {
        c.count("odd_rates", 1);
    }
    if !sh.collect {
        c.count("uncollected", 1);
    }
    let mut extreme = std::collections::BTreeSet::new();
    for (_, a) in p.acts.iter_mut() {
        if let Act::Param(k, q, op) = a {
            let (lo, hi, ..) = p.specs[*k].params()[*q];
            let v = match op {
                Op::Now(v) | Op::Set(v, _) | Op::Lin(v, ..) | Op::Exp(v, ..) => v,
                _ => continue,
            };
            if *v < lo || *v > hi {
                // only some nodes go beyond
                if extreme.len() < 3 || extreme.contains(&*k) {
                    extreme.insert(*k);
                } else {
                    *v = v.clamp(lo, hi);
                }
            }
        }
        if let Act::Adsr(_, t) = a {
            if sh.hostile && c.rng.chance(0.3) {
                let w = *c.rng.pick(&[0, 1, 3]);
                t[w] = *c.rng.pick(&[0.0, 1e-9, 1e-6, 1000.0, 100_000.0]);
            }
        }
        if let Act::Sampler(_, op) = a {
            if sh.hostile && c.rng.chance(0.25) {
                // loops that cannot be faded, or lie outside
                let (x, y) = (c.rng.below(400) as f64, c.rng.below(400) as f64);
                *op = match c.rng.below(5) {
                    0 => SOp::Loop(x, x + c.rng.uniform(0.0, 30.0)),
                    1 => SOp::Loop(x, y),
                    2 => SOp::Loop(x + 1e5, y + 2e5),
                    3 => SOp::Loop(0.0, 0.0),
                    _ => SOp::Loop(x, x + 0.25),
                };
                c.count("short_loops", 1);
            }
        }
        if let Act::Level(_, _, _, v) = a {
            if c.rng.chance(0.02) {
                *v = *c.rng.pick(&[1e6, -1e6, 1e-30]);
            }
        }
    }
    for s in p.specs.iter_mut() {
        if let Spec::Conv(_, len, _) = s {
            if c.rng.chance(0.05) {
                *len = *c.rng.pick(&[1, 2, 8192, 8193, 20_000]);
            }
        }
    }
    // the specs that are created
    for i in 0..p.acts.len() {
        if let Act::Create(k, s) = &mut p.acts[i].1 {
            if *s != p.specs[*k] {
                c.count("extreme_impulses", 1);
            }
            *s = p.specs[*k].clone();
        }
    }
    c.count("hostile_parameters", extreme.len());
    describe(c, &p);
    let b = bound(&p);
    let finite = b < 1e24;
    if finite {
        c.count("bounded_programs", 1);
    }
    let m = match c.rng.below(8) {
        0 => *c.rng.pick(&[1, 2, 3, 5, 4096, 16_384]),
        _ => max_frames(&mut c.rng),
    };
    c.note(format!("maxf={m} gains up to {b:e}"));
    let mut r = Run::new(&p, m);
    let s = c.rng.u64();
    let mut cut = cutter(s, m);
    let odd = c.rng.chance(0.3);
    loop {
        if r.pos == r.boundary() || r.pos == 0 {
            r.act();
            if c.verbose {
                eprintln!("@{}", r.pos);
            }
        }
        if r.pos >= p.total {
            break;
        }
        let left = r.boundary().min(p.total) - r.pos;
        let mut n = cut(left).clamp(1, left);
        if c.rng.chance(0.02) {
            n = 0;
            c.count("empty_calls", 1);
        }
        let (ic, oc) = if odd {
            c.count("odd_channels", 1);
            (c.rng.below(2 * p.maxch + 2), c.rng.below(2 * p.maxch + 2))
        } else {
            (p.input.len(), p.out_ch)
        };
        let mut ib = OwnedAudioBuffer::new(n, ic, p.sr);
        for ch in 0..ic {
            let d = match p.input.get(ch) {
                Some(d) => d,
                None => continue,
            };
            for i in 0..n {
                ib.set_sample(SampleLocation::new(ch, i), d[r.pos + i]);
            }
        }
        let mut ob = OwnedAudioBuffer::new(n, oc, p.sr);
        ob.fill_with_value(DIRT);
        crate::monitor::audio(false, || r.e.proc.process(&ib, &mut ob));
        if finite {
            check_out(c, &ob, &format!("at frame {}", r.pos))?;
        } else {
            c.count("calls", 1);
        }
        r.pos += n;
    }
    if c.rng.chance(0.1) {
        // a long silence in one call
        let n = c.rng.range(5000, 40_000);
        let ib = OwnedAudioBuffer::new(n, p.input.len(), p.sr);
        let mut ob = OwnedAudioBuffer::new(n, p.out_ch, p.sr);
        crate::monitor::audio(false, || r.e.proc.process(&ib, &mut ob));
        c.count("huge_calls", 1);
        if finite {
            check_out(c, &ob, "in the silence after")?;
        }
    }
    if c.rng.chance(0.2) {
        // some of it goes, the rest goes on
        c.count("orphans", 1);
        let Run { e, mut live, .. } = r;
        let Eng { mut proc, ctx, .. } = e;
        let mut ctx = Some(ctx);
        let n = m.min(512);
        for step in 0..6 {
            match c.rng.below(4) {
                0 => ctx = None,
                1 => {
                    let k = c.rng.below(live.len());
                    live[k] = None;
                }
                2 => {
                    for l in live.iter_mut().flatten() {
                        match l {
                            Live::Adsr(a) => a.note_on_at_time(Timestamp::zero()),
                            Live::Recorder(x) => {
                                x.borrow_mut().record_now();
                                let _ = x.borrow_mut().take_recording();
                            }
                            Live::Gain(g) => g.gain().set_value_now(0.5),
                            _ => {}
                        }
                    }
                }
                _ => {
                    if let Some(c) = ctx.as_mut() {
                        c.process_notifications()
                    }
                }
            }
            if step == 4 && c.rng.chance(0.5) {
                // the audio side goes first
                drop(proc);
                for l in live.iter_mut().flatten() {
                    l.with(|n| n.connect_to_output());
                    if let Live::Sampler(s) = l {
                        s.stop_now();
                    }
                }
                if let Some(c) = ctx.as_mut() {
                    c.process_notifications();
                    let _ = c.current_time();
                    c.stop();
                }
                break;
            }
            let ib = OwnedAudioBuffer::new(n, p.input.len(), p.sr);
            let mut ob = OwnedAudioBuffer::new(n, p.out_ch, p.sr);
            crate::monitor::audio(false, || proc.process(&ib, &mut ob));
            if finite {
                check_out(c, &ob, "after parts were dropped")?;
            }
        }
    }
    let mut kinds: Vec<_> = p.specs.iter().map(|s| s.name()).collect();
    kinds.sort();
    kinds.dedup();
    c.nontrivial = kinds.len() >= 4;
    Ok(())
}

/// As many nodes and connections as there is room for
fn large(c: &mut Case) -> Res {
    let maxch = *c.rng.pick(&[1, 2, 8, 16]);
    let sr = rate(&mut c.rng);
    let maxf = *c.rng.pick(&[16, 64, 200]);
    let mut e = Eng::new(sr, maxch, maxf);
    let n = c.rng.range(100, 500);
    let shape = c.rng.below(4);
    let mut nodes = Vec::new();
    let mut edges = 0;
    c.note(format!("{n} nodes x{maxch}, shape {shape}, maxf={maxf}"));
    for k in 0..n {
        let ch = c.rng.range(1, maxch);
        let s = match c.rng.below(6) {
            0 if ch == 2 => Spec::Pan,
            1 => Spec::Biquad(ch, c.rng.below(6)),
            2 => Spec::Osc(200.0, ch, 0),
            3 => Spec::Adsr(ch),
            4 if c.rng.chance(0.2) => Spec::Recorder(ch),
            5 if c.rng.chance(0.2) => Spec::Meter(ch, 0.0, 0.1, 50.0),
            _ => Spec::Gain(ch),
        };
        let l = Live::new(&s, &mut e);
        let room = edges < 500;
        if k > 0 && room && s.io().0 > 0 {
            let from: usize = match shape {
                0 => k - 1,
                1 => 0,
                2 => c.rng.below(k),
                _ => k / 2,
            };
            let f: &Live = &nodes[from];
            f.with(|a| {
                l.with(|b| {
                    a.connect_to(b);
                })
            });
            edges += 1;
        }
        nodes.push(l);
        if c.rng.chance(0.01) {
            let mut ob = OwnedAudioBuffer::new(maxf, maxch, sr);
            e.proc.process(&OwnedAudioBuffer::new(maxf, maxch, sr), &mut ob);
        }
    }
    nodes[0].with(|n| n.connect_to_input());
    nodes[n - 1].with(|n| n.connect_to_output());
    e.ctx.start();
    for _ in 0..4 {
        let data = noise(&mut c.rng, maxch, maxf);
        let mut ob = OwnedAudioBuffer::new(maxf, maxch, sr);
        e.proc.process(&to_buffer(&data, sr), &mut ob);
        check_out(c, &ob, "large graph")?;
        for _ in 0..c.rng.below(60) {
            if nodes.len() < 3 {
                break;
            }
            let k = c.rng.below(nodes.len());
            let l = nodes.swap_remove(k);
            drop(l);
        }
        nodes[c.rng.below(nodes.len() / 2 + 1)].with(|n| n.connect_to_output());
        if c.rng.chance(0.5) {
            e.ctx.process_notifications();
        }
    }
    c.count("large_graphs", 1);
    c.nontrivial = true;
    Ok(())
}

/// Very many messages of one kind
fn floods(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng);
    let mut e = Eng::new(sr, 2, maxf);
    let mut gain = Gain::new(e.ctx.as_ref(), 2);
    let mut adsr = Adsr::new(e.ctx.as_ref(), 2, sr);
    let mut mixer = Mixer::unity(e.ctx.as_ref(), 2);
    let rec = Recorder::new(e.ctx.as_mut(), 2, sr);
    let meter = Envelope::new(e.ctx.as_mut(), 2, Duration::ZERO, Duration::ZERO, sr as f64 / c.rng.log_uniform(1.0, 1000.0));
    gain.node.connect_to_input();
    gain.node.connect_to(&adsr.node);
    adsr.node.connect_to(&mixer.node);
    gain.node.connect_to(&rec.borrow().node);
    gain.node.connect_to(&meter.borrow().node);
    mixer.node.connect_to_output();
    let rounds = c.rng.range(1, 4);
    c.note(format!("sr={sr} maxf={maxf} {rounds} floods, seed {}", c.rng.clone().u64()));
    for _ in 0..rounds {
        let n = c.rng.log_uniform(10.0, 10_000.0) as usize;
        let what = c.rng.below(9);
        c.tag(format!("flood {what}"));
        let scheduled = c.rng.chance(0.5);
        let t0 = e.pos as f64;
        for k in 0..n {
            let t = if scheduled { Timestamp::from_samples(t0 + k as f64 * 0.3, sr) } else { Timestamp::zero() };
            match what {
                0 => gain.gain().set_value_at_time((k % 7) as f64 * 0.3, t),
                1 => adsr.note_on_at_time(t),
                2 => {
                    if k % 2 == 0 {
                        adsr.note_on_at_time(t)
                    } else {
                        adsr.note_off_at_time(t)
                    }
                }
                3 => mixer.set_level(k % 2, (k / 2) % 2, Level::from_linear(0.5)),
                4 => rec.borrow_mut().record_now(),
                5 => {
                    if k % 2 == 0 {
                        rec.borrow_mut().record_now()
                    } else {
                        rec.borrow_mut().stop_record_at_time(t)
                    }
                }
                6 => adsr.set_adsr(Duration::from_micros(k as u64), Duration::ZERO, Level::from_linear(0.5), Duration::from_millis(1)),
                7 => {
                    if k % 2 == 0 {
                        e.ctx.start()
                    } else {
                        e.ctx.stop()
                    }
                }
                _ => {
                    if k < 4000 {
                        let x = Gain::new(e.ctx.as_ref(), 1);
                        gain.node.connect_to(&x.node);
                        if k % 2 == 0 {
                            gain.node.disconnect_from_node(&x.node);
                        }
                    }
                }
            }
        }
        e.ctx.start();
        let blocks = c.rng.range(1, 20);
        for _ in 0..blocks {
            let data = noise(&mut c.rng, 2, maxf);
            let mut ob = OwnedAudioBuffer::new(maxf, 2, sr);
            let ib = to_buffer(&data, sr);
            crate::monitor::audio(false, || e.proc.process(&ib, &mut ob));
            e.pos += maxf;
            check_out(c, &ob, "flood")?;
        }
        if c.rng.chance(0.3) {
            e.ctx.process_notifications();
            let _ = rec.borrow_mut().take_recording();
            let _ = meter.borrow_mut().take_notifications();
        }
        c.count("floods", 1);
    }
    c.nontrivial = true;
    Ok(())
}
