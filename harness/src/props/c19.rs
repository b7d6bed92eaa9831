//! C19: what a process call does besides computing.
use crate::core::*;
use crate::eng::*;
use crate::monitor;
use crate::probe::*;
use crate::program::*;
use rawdio::prelude::*;
use rawdio::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::time::Duration;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "every process call runs under a counting allocator, with the entry points for waiting and I/O replaced by counting ones: random programs over every node type with notifications collected or never; meters and recorders left uncollected until everything overflows; hundreds of nodes dropped at once, again and again, with processors that tell which thread destroyed them, also after a long while without any being dropped; and a control thread working at full speed beside the audio thread; non-trivial = process calls without pending commands were observed",
        quick_cases: 8_000,
        thorough_cases: 200_000,
        parallel: true,
        assumptions: &["yielding in a contended lock-free queue is not waiting"],
        required: &["steady_calls", "busy_calls", "uncollected_runs", "overflowing_runs", "mass_drops", "destroyed", "contended_calls", "eventful_steady_calls", "idle_seconds", "calls_watched_while_rendering"],
        case,
    }
}

/// (the blocks of a queue of mixer matrices take 17 KiB)
const BIG: usize = 24 * 1024;

fn judge(seen: &monitor::Seen, fresh: bool) -> Res {
    if seen.waits > 0 {
        return fail("wait", format!("a process call waited {} times", seen.waits));
    }
    if seen.io > 0 {
        return fail("io", format!("a process call did I/O {} times", seen.io));
    }
    if !fresh && seen.allocs + seen.frees > 0 {
        return fail(
            "heap",
            format!(
                "a process call without pending commands allocated {} times (up to {} bytes) and freed {} times",
                seen.allocs, seen.largest, seen.frees
            ),
        );
    }
    if seen.largest_freed >= BIG {
        return fail("teardown", format!("a process call freed {} bytes at once", seen.largest_freed));
    }
    Ok(())
}

fn case(c: &mut Case) -> Res {
    match c.index % 40 {
        7 => overflow(c),
        17 => drops(c),
        27 => contended(c),
        _ => programs(c),
    }
}

fn programs(c: &mut Case) -> Res {
    let mut sh = Shape {
        steps: true,
        ..Shape::default()
    };
    sh.collect = c.index % 3 != 0;
    sh.hostile = c.index % 5 == 0;
    if c.index % 16 == 1 {
        sh.max_nodes = 40;
    }
    let p = generate(&mut c.rng, sh);
    describe(c, &p);
    if !sh.collect {
        c.count("uncollected_runs", 1);
    }
    let m = max_frames(&mut c.rng);
    let s = c.rng.u64();
    let mut r = Run::new(&p, m);
    // who of the nodes is first is not known: with a few heralds most come after one of them
    let heralds: Vec<_> = (0..4).map(|_| herald(r.e.ctx.as_ref())).collect();
    // receiving many events may take memory, which is consuming them
    let few = p.acts.iter().filter(|a| matches!(a.1, Act::Note(..) | Act::Adsr(..) | Act::AdsrPart(..) | Act::Sampler(..) | Act::Record(..) | Act::StopRecord(..) | Act::StopRecordAt(..))).count() <= 15;
    let mut first = 0;
    let mut cut = cutter(s, m);
    let trace = c.verbose;
    let mut bad = Ok(());
    let (mut steady, mut busy) = (0, 0);
    r.all(&mut cut, &mut |f, fresh| {
        let seen = monitor::audio(trace && !fresh, f);
        if fresh {
            busy += 1;
            if few {
                first += 1;
                if bad.is_ok() && seen.late > 0 {
                    bad = fail("heap", format!("a process call allocated or freed {} times after its commands were consumed and rendering had begun", seen.late));
                }
            }
        } else {
            steady += 1;
        }
        if bad.is_ok() {
            bad = judge(&seen, fresh);
        }
    });
    c.count("steady_calls", steady);
    c.count("busy_calls", busy);
    c.count("calls_watched_while_rendering", first);
    drop(heralds);
    let eventful = p.acts.iter().any(|a| matches!(a.1, Act::Note(..) | Act::Sampler(..) | Act::StopRecordAt(..)));
    if eventful {
        c.count("eventful_steady_calls", steady);
    }
    bad?;
    c.nontrivial = steady > 0;
    Ok(())
}

/// Meters and recorders that nobody listens to.
fn overflow(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = *c.rng.pick(&[512, 1024, 4096, 300]);
    let mut e = Eng::new(sr, 4, maxf);
    let mut meters = Vec::new();
    let mut recorders = Vec::new();
    for _ in 0..c.rng.range(1, 3) {
        let f = c.rng.log_uniform(sr as f64 / 5000.0, sr as f64 / 3.0);
        let ch = c.rng.range(1, 4);
        let m = Envelope::new(e.ctx.as_mut(), ch, Duration::from_millis(1), Duration::from_millis(30), f);
        m.borrow().node.connect_to_input();
        meters.push(m);
        let ch = c.rng.range(1, 4);
        let r = Recorder::new(e.ctx.as_mut(), ch, sr);
        r.borrow().node.connect_to_input();
        r.borrow_mut().record_now();
        if c.rng.chance(0.7) {
            for _ in 0..c.rng.below(60) {
                let t = c.rng.below(150_000) as f64 + 0.5;
                r.borrow_mut().stop_record_at_time(Timestamp::from_samples(t, sr));
            }
        }
        recorders.push(r);
    }
    c.note(format!("sr={sr} maxf={maxf} {} meters and recorders uncollected", meters.len()));
    e.ctx.start();
    let total = c.rng.range(1000, 200_000);
    let ib = {
        let data = noise(&mut c.rng, 4, maxf);
        to_buffer(&data, sr)
    };
    let mut ob = OwnedAudioBuffer::new(maxf, 4, sr);
    let mut pos = 0;
    let mut fresh = true;
    while pos < total {
        let seen = monitor::audio(c.verbose && !fresh, || e.proc.process(&ib, &mut ob));
        judge(&seen, fresh)?;
        if !fresh {
            c.count("steady_calls", 1);
            c.count("eventful_steady_calls", 1);
        }
        fresh = false;
        pos += maxf;
        if c.rng.chance(0.01) {
            for r in &recorders {
                r.borrow_mut().record_now();
            }
            fresh = true;
        }
        if c.rng.chance(0.003) {
            e.ctx.process_notifications();
            fresh = true;
        }
    }
    c.count("overflowing_runs", 1);
    c.nontrivial = total > 20_000;
    Ok(())
}

/// Everything dropped at once, more than once.
fn drops(c: &mut Case) -> Res {
    let sr = 48_000;
    let maxf = *c.rng.pick(&[64, 16, 200]);
    let mut e = Eng::new(sr, 2, maxf);
    e.ctx.start();
    let rounds = c.rng.range(2, 6);
    let idle = if c.index % 8000 == 57 { 8 + (c.index / 8000) as u64 * 2 } else { 0 };
    let input = new_sig(1);
    let mut graves = Vec::new();
    let mut out = new_sig(2);
    let _heralds: Vec<_> = (0..3).map(|_| herald(e.ctx.as_ref())).collect();
    for round in 0..rounds {
        if idle > 0 && round + 1 == rounds {
            // for a long while nothing is dropped, and then something is
            let t = std::time::Instant::now();
            while t.elapsed().as_secs() < idle {
                let ib = OwnedAudioBuffer::new(maxf, 1, sr);
                let mut ob = OwnedAudioBuffer::new(maxf, 2, sr);
                let seen = monitor::audio(c.verbose, || e.proc.process(&ib, &mut ob));
                judge(&seen, false)?;
                std::thread::sleep(Duration::from_millis(50));
            }
            c.count("idle_seconds", idle as usize);
        }
        let n = c.rng.range(20, 400);
        let mut nodes: Vec<GraphNode> = Vec::new();
        let mut real = Vec::new();
        for _ in 0..n {
            let weight = c.rng.log_uniform(1.0, 1e5) as usize;
            let (node, g) = mortal(e.ctx.as_ref(), 2, weight);
            if let Some(last) = nodes.last() {
                if c.rng.chance(0.5) {
                    last.connect_to(&node);
                }
            }
            nodes.push(node);
            graves.push(g);
        }
        let specs = [Spec::Recorder(2), Spec::Conv(2, 3000, 1), Spec::Sampler(2, 9000, 2), Spec::Osc(440.0, 2, 0), Spec::Meter(2, 0.0, 0.1, 100.0), Spec::Shaper(2, 0, 0.0)];
        for _ in 0..c.rng.below(5) {
            let s = c.rng.pick(&specs).clone();
            real.push(Live::new(&s, &mut e));
        }
        nodes.last().unwrap().connect_to_output();
        c.note(format!("round {round}: {n} nodes and {}", real.len()));
        let mut call = |c: &mut Case, e: &mut Eng, fresh: bool| -> Res {
            let ib = OwnedAudioBuffer::new(maxf, input.len(), sr);
            let mut ob = OwnedAudioBuffer::new(maxf, out.len(), sr);
            out.iter_mut().for_each(|o| o.clear());
            let seen = monitor::audio(c.verbose, || e.proc.process(&ib, &mut ob));
            c.count(if fresh { "busy_calls" } else { "steady_calls" }, 1);
            if seen.late > 0 {
                return fail("heap", format!("a process call of {n} nodes allocated or freed {} times after its commands were consumed and rendering had begun", seen.late));
            }
            judge(&seen, fresh)
        };
        call(c, &mut e, true)?;
        call(c, &mut e, false)?;
        if c.rng.chance(0.3) {
            // one by one
            while let Some(_n) = nodes.pop() {
                drop(_n);
                if c.rng.chance(0.05) {
                    call(c, &mut e, true)?;
                }
            }
        }
        drop(nodes);
        drop(real);
        call(c, &mut e, true)?;
        call(c, &mut e, false)?;
        c.count("mass_drops", n);
    }
    for g in &graves {
        if g.in_audio.load(SeqCst) > 0 {
            return fail("teardown", "a dropped node's processor was destroyed inside a process call".into());
        }
        c.count("destroyed", g.dropped.load(SeqCst) as usize);
    }
    if c.index % 400 == 17 || idle > 0 {
        // the collector has its turn
        let t = std::time::Instant::now();
        while graves.iter().any(|g| g.dropped.load(SeqCst) == 0) && t.elapsed().as_secs() < 5 {
            std::thread::sleep(Duration::from_millis(20));
        }
        for g in &graves {
            c.count("destroyed", g.dropped.load(SeqCst) as usize);
        }
    }
    c.nontrivial = true;
    Ok(())
}

/// A busy control thread beside the audio thread.
fn contended(c: &mut Case) -> Res {
    let sr = 48_000;
    let maxf = *c.rng.pick(&[16, 64, 128]);
    let mut e = Eng::new(sr, 2, maxf);
    let mut hub = Gain::new(e.ctx.as_ref(), 2);
    let mut mixer = Mixer::unity(e.ctx.as_ref(), 2);
    let mut adsr = Adsr::new(e.ctx.as_ref(), 2, sr);
    let data = noise(&mut c.rng, 2, 4000);
    let mut sampler = Sampler::new(e.ctx.as_ref(), to_buffer(&data, sr));
    let rec = Recorder::new(e.ctx.as_mut(), 2, sr);
    let meter = Envelope::new(e.ctx.as_mut(), 2, Duration::ZERO, Duration::from_millis(5), 3000.0);
    hub.node.connect_to_input();
    hub.node.connect_to(&adsr.node);
    adsr.node.connect_to(&mixer.node);
    sampler.node.connect_to(&mixer.node);
    mixer.node.connect_to_output();
    hub.node.connect_to(&rec.borrow().node);
    hub.node.connect_to(&meter.borrow().node);
    e.ctx.start();
    let stop = AtomicBool::new(false);
    let beats = AtomicUsize::new(0);
    let drained = AtomicUsize::new(0);
    let ops = c.rng.range(200, 3000);
    c.note(format!("maxf={maxf} {ops} operations"));
    let mut r = c.rng.fork();
    let index = c.index;
    let Eng { mut proc, mut ctx, .. } = e;
    let mut graves = Vec::new();
    let (calls, bad) = std::thread::scope(|sc| {
        let (stop, beats, drained) = (&stop, &beats, &drained);
        // the audio thread ends whatever happens here
        struct End<'a>(&'a AtomicBool);
        impl Drop for End<'_> {
            fn drop(&mut self) {
                self.0.store(true, SeqCst);
            }
        }
        let end_audio = End(stop);
        // the sampler's queue has 32 places, and more than that is the user's fault
        let (mut queued, mut beat) = (0, 0);
        let audio = sc.spawn(move || {
            monitor::set_case(index);
            let ib = OwnedAudioBuffer::new(maxf, 2, sr);
            let mut ob = OwnedAudioBuffer::new(maxf, 2, sr);
            let mut calls = 0;
            let mut bad = Ok(());
            while !stop.load(SeqCst) {
                // Audio this much faster than real time could fill a recording faster than it is collected
                if calls * maxf > drained.load(SeqCst) * maxf + 60_000 {
                    std::hint::spin_loop();
                    continue;
                }
                let seen = monitor::audio(false, || proc.process(&ib, &mut ob));
                calls += 1;
                beats.store(calls, SeqCst);
                if bad.is_ok() {
                    // sorting hundreds of new events takes (and frees) a lot at once,
                    // which is consuming them
                    bad = judge(&monitor::Seen { largest_freed: 0, ..seen }, true);
                }
            }
            (calls, bad, proc)
        });
        for _ in 0..ops {
            let now = ctx.current_time();
            let t = now.incremented_by_samples(r.below(500), sr);
            let end = t.incremented_by_samples(1 + r.below(500), sr);
            let mut op = r.below(14);
            if op == 6 || op == 7 {
                let b = beats.load(SeqCst);
                // a call that began after the last one was sent has ended
                if b >= beat + 2 {
                    queued = 0;
                }
                if queued == 30 {
                    op = 11;
                } else {
                    queued += 1;
                }
            }
            match op {
                0 => hub.gain().set_value_at_time(r.f64(), t),
                1 => hub.gain().linear_ramp_to_value(r.f64(), t, end),
                2 => hub.gain().cancel_scheduled_changes(),
                3 => adsr.note_on_at_time(t),
                4 => adsr.note_off_at_time(t),
                5 => mixer.set_level(r.below(2), r.below(2), Level::from_linear(r.f64())),
                6 => sampler.start_from_position_at_time(t, Timestamp::zero()),
                7 => sampler.stop_at_time(t),
                8 => rec.borrow_mut().record_now(),
                9 => rec.borrow_mut().stop_record_at_time(t),
                10 => {
                    drained.store(beats.load(SeqCst), SeqCst);
                    ctx.process_notifications();
                    let _ = rec.borrow_mut().take_recording();
                    let _ = meter.borrow_mut().take_notifications();
                }
                11 => {
                    let _ = hub.gain().get_value().load(SeqCst);
                }
                12 => {
                    let (n, g) = mortal(ctx.as_ref(), 2, 100);
                    hub.node.connect_to(&n);
                    graves.push(g);
                }
                _ => std::thread::sleep(Duration::from_micros(r.below(200) as u64)),
            }
            if op == 6 || op == 7 {
                beat = beats.load(SeqCst);
            }
        }
        drop(end_audio);
        let (calls, bad, _proc) = audio.join().unwrap();
        (calls, bad)
    });
    c.count("contended_calls", calls);
    bad?;
    for g in &graves {
        if g.in_audio.load(SeqCst) > 0 {
            return fail("teardown", "a dropped node's processor was destroyed inside a process call".into());
        }
    }
    c.nontrivial = calls > 10;
    Ok(())
}
