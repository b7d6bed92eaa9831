//! C07 sampler: every frame against the voice model.
use crate::core::*;
use crate::eng::*;
use crate::sampler_model::*;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "random starts (now, scheduled, late, from any position), stops, restarts and cancellations in any order of submission, several in one frame, irregular blocks, noise sources (so that any sample identifies its position) of 1 to 3 channels; non-trivial = at least 2 starts and 1 stop heard",
        quick_cases: 8000,
        thorough_cases: 60_000,
        parallel: true,
        assumptions: &["at most 30 events between two process calls (queue capacity)", "sample rate of the source equals the engine's", "when a third voice is needed during a fade the oldest fading voice may be cut"],
        required: &["scheduled_ahead", "starts", "stops", "late_events", "overlap_frames", "source_ends", "cancels", "third_voices", "silent_frames"],
        case,
    }
}

/// A whole performance scheduled in one go, in any order.
fn scheduled(c: &mut Case) -> Res {
    let sr = *c.rng.pick(&[1000, 2000, 4000]);
    let maxf = max_frames(&mut c.rng);
    let ch = c.rng.range(1, 2);
    let mut e = Eng::new(sr, 3, maxf);
    let fade = (sr as f64 * 0.05).ceil() as usize;
    let n_src = c.rng.range(fade, fade * 6);
    let source = noise(&mut c.rng, ch, n_src);
    let starts = c.rng.range(12, 90);
    let mut plan = Vec::new();
    let mut t = c.rng.below(fade);
    for _ in 0..starts {
        plan.push((t, Ev::Start(c_pos(c, n_src))));
        if c.rng.chance(0.5) {
            plan.push((t + c.rng.range(1, 2 * fade), Ev::Stop));
        }
        t += c.rng.range(fade + 1, 3 * fade);
    }
    match c.rng.below(3) {
        0 => c.rng.shuffle(&mut plan),
        1 => plan.reverse(),
        _ => (),
    }
    let mut rig = Rig::with_capacity(&mut e, source, plan.len() + c.rng.below(3));
    c.note(format!("sr={sr} x{ch} maxf={maxf} source={n_src} scheduled={}", plan.len()));
    for (t, ev) in &plan {
        rig.send(c, 0, Some(*t as f64 + 0.25), *ev);
    }
    e.ctx.start();
    for n in partition(&mut c.rng, t, maxf, &[]) {
        rig.block(&mut e, n)?;
    }
    c.count("scheduled_ahead", plan.len());
    c.count("starts", rig.model.starts);
    c.nontrivial = true;
    Ok(())
}

fn case(c: &mut Case) -> Res {
    if c.index % 25 == 9 {
        return scheduled(c);
    }
    let sr = if c.rng.chance(0.5) { *c.rng.pick(&[8000, 11_025, 4000, 1000]) } else { rate(&mut c.rng) };
    let maxf = max_frames(&mut c.rng);
    let ch = channels(&mut c.rng, 3);
    let mut e = Eng::new(sr, ch.max(3), maxf);
    if c.index % 16 == 3 {
        e.warp(&mut c.rng);
    }
    let base = e.pos;
    let fade = (sr as f64 * 0.05).ceil() as usize;
    let n_src = if c.rng.chance(0.2) { c.rng.range(1, fade) } else { c.rng.range(fade, fade * 6) };
    let source = noise(&mut c.rng, ch, n_src);
    let mut rig = Rig::new(&mut e, source);
    let total = c.rng.range(fade, fade * 12);
    c.note(format!("sr={sr} x{ch} maxf={maxf} source={n_src} total={total} from={base}"));
    let sizes = partition(&mut c.rng, total, maxf, &[]);
    e.ctx.start();
    let p_cmd = (c.rng.uniform(2.0, 14.0) / sizes.len() as f64).min(0.6);
    // rapid restarts need a third voice
    let rapid = c.rng.chance(0.15);
    let reach = if rapid { fade } else { fade * 4 };
    let mut cancels = 0;
    let mut silent = 0;
    for n in sizes {
        let at = e.pos;
        while c.rng.chance(p_cmd) && rig.sent < 28 {
            let when = |c: &mut Case| -> Option<f64> {
                Some(match c.rng.below(6) {
                    0 => c.rng.below(at + 1) as f64 + 0.25,
                    1 => at.saturating_sub(c.rng.below(fade * 2)) as f64 + 0.25,
                    _ => at as f64 + c.rng.below(reach) as f64 + 0.25,
                })
            };
            match c.rng.below(10) {
                0 => {
                    rig.send(c, at, None, Ev::StartNow);
                }
                1..=4 => {
                    let p = match c.rng.below(6) {
                        0 | 1 => 0.0,
                        2 => c.rng.below(n_src) as f64 + *c.rng.pick(&[0.1, -0.1]),
                        3 => (n_src + c.rng.below(100)) as f64 - 50.0,
                        _ => c.rng.below(n_src) as f64,
                    };
                    let t = when(c);
                    // two at once, or together with a stop
                    rig.send(c, at, t, Ev::Start(p.max(0.0)));
                    match c.rng.below(8) {
                        0 => rig.send(c, at, t, Ev::Stop),
                        1 if rapid => {
                            let p = c_pos(c, n_src);
                            rig.send(c, at, t, Ev::Start(p))
                        }
                        _ => (),
                    }
                }
                5 => rig.send(c, at, None, Ev::Stop),
                6 | 7 => {
                    let t = when(c);
                    rig.send(c, at, t, Ev::Stop);
                }
                8 => {
                    // scheduled in reverse: the stop before its start
                    let t = when(c).unwrap();
                    let d = c.rng.below(reach) as f64;
                    rig.send(c, at, Some(t + d), Ev::Stop);
                    let p = c_pos(c, n_src);
                    rig.send(c, at, Some(t), Ev::Start(p));
                }
                _ => {
                    if c.rng.chance(0.4) {
                        rig.send(c, at, None, Ev::CancelAll);
                        cancels += 1;
                    }
                }
            }
        }
        rig.block(&mut e, n)?;
        if rig.model.silent() {
            silent += n;
        }
    }
    let m = &rig.model;
    c.count("starts", m.starts);
    c.count("stops", m.stops);
    c.count("late_events", rig.late);
    c.count("overlap_frames", m.overlaps);
    c.count("source_ends", m.ended);
    c.count("cancels", cancels);
    c.count("third_voices", m.cut);
    c.count("silent_frames", silent);
    c.nontrivial = m.starts >= 2 && m.stops >= 1;
    Ok(())
}

fn c_pos(c: &mut Case, n: usize) -> f64 {
    c.rng.below(n) as f64
}
