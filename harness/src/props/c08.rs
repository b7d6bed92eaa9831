//! C08 sampler loops: every frame against the voice model.
use crate::core::*;
use crate::eng::*;
use crate::sampler_model::*;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "random loops (whole and fractional lengths of at least one fade), enabled before, with and after the start, changed, cancelled and stopped, starts late by whole loops, restarts while looping, loops before any start, irregular blocks down to one frame, long runs, runs of thousands of loops; non-trivial = at least 3 jumps heard",
        quick_cases: 5000,
        thorough_cases: 100_000,
        parallel: true,
        assumptions: &["loops at least as long as the fade, enabled before the playhead has passed their end", "at most 30 events between two process calls (queue capacity)", "when a third voice is needed during a fade the fading voices may be cut"],
        required: &["jumps", "fractional", "stopped_looping", "loop_cancelled", "loop_changed", "loop_without_start", "late_starts", "restarts", "long_runs", "endless_runs", "ends_after_cancel", "cancel_all", "scheduled_behind", "empty_loops"],
        case,
    }
}

fn loop_points(c: &mut Case, fade: usize, n_src: usize, after: f64) -> Option<(f64, f64)> {
    let len = fade + 2 + c.rng.below(fade * 3);
    let end_min = (after.ceil().max(0.0) as usize + 3).max(len);
    if end_min > n_src {
        return None;
    }
    // the end may be the end of the source
    let end = if c.rng.chance(0.2) { n_src } else { c.rng.range(end_min, n_src) };
    let start = end - len;
    let (mut s, mut e) = (start as f64, end as f64);
    if c.rng.chance(0.5) {
        c.count("fractional", 1);
        e += c.rng.f64() - if end == n_src { 1.0 } else { 0.0 };
        if c.rng.chance(0.5) {
            s += c.rng.f64();
        }
    }
    Some((s, e))
}

fn case(c: &mut Case) -> Res {
    // thousands of loops
    let endless = c.index % 50 == 8;
    let long = c.index % 50 == 7 || endless;
    let sr = if endless {
        *c.rng.pick(&[1000, 1000, 2000, 4000])
    } else if long {
        *c.rng.pick(&[44_100, 44_100, 22_050, 48_000])
    } else if c.rng.chance(0.6) {
        *c.rng.pick(&[8000, 11_025, 4000, 1000])
    } else {
        rate(&mut c.rng)
    };
    let maxf = max_frames(&mut c.rng);
    let ch = channels(&mut c.rng, 2);
    let mut e = Eng::new(sr, ch.max(3), maxf);
    if c.index % 16 == 3 {
        e.warp(&mut c.rng);
    }
    let base = e.pos;
    let fade = (sr as f64 * 0.05).ceil() as usize;
    let n_src = c.rng.range(fade * 2, fade * 8);
    let source = noise(&mut c.rng, ch, n_src);
    let mut rig = Rig::new(&mut e, source);
    let total = if c.index % 1000 == 8 { 8_000_000 } else if endless { c.rng.range(300_000, 600_000) } else if long { c.rng.range(150_000, 250_000) } else { c.rng.range(fade * 6, fade * 30) };
    c.note(format!("sr={sr} x{ch} maxf={maxf} source={n_src} total={total} from={base}"));
    let sizes = if long {
        c.count(if endless { "endless_runs" } else { "long_runs" }, 1);
        let n = if endless { c.rng.range(1, maxf) } else { c.rng.range(1, 3) };
        vec![n; total / n]
    } else {
        partition(&mut c.rng, total, maxf, &[])
    };
    e.ctx.start();
    let p_cmd = (c.rng.uniform(2.0, 14.0) / sizes.len() as f64).min(0.5);
    let mut empty = 0;
    let (mut stopped, mut cancelled, mut changed, mut unstarted, mut late, mut restarts, mut all, mut ahead) = (0, 0, 0, 0, 0, 0, 0, 0);
    for n in sizes {
        let at = e.pos;
        if long {
            if at == base {
                rig.send(c, at, None, Ev::StartNow);
                if let Some((s, e)) = loop_points(c, fade, n_src, 0.0) {
                    // whole frames: over this many loops the resolution of the times would show
                    let (s, e) = if endless { (s.floor(), (s.floor() + fade as f64 + 2.0 + c.rng.below(fade) as f64).min(n_src as f64)) } else { (s, e) };
                    rig.send(c, at, None, Ev::Loop(s, e));
                }
            }
            rig.block(&mut e, n)?;
            if rig.model.ambiguous {
                break;
            }
            continue;
        }
        // one decision at a time: what happens next depends on where the playhead is
        if rig.pending().is_empty() && c.rng.chance(p_cmd) {
            let m = &rig.model;
            let t = if c.rng.chance(0.4) { None } else { Some((at + c.rng.below(fade * 2)) as f64 + 0.25) };
            // playhead when the event comes
            let due = t.unwrap_or(at as f64);
            let playing = m.playing();
            let looping = m.looping();
            match c.rng.below(9) {
                0 | 1 if !playing => {
                    // start, with or without a loop in the same frame, in either order
                    let p = if c.rng.chance(0.4) { 0.0 } else { c.rng.below(n_src) as f64 };
                    let t = t.unwrap_or(at as f64 + 0.25);
                    let with_loop = c.rng.chance(0.6);
                    let lp = if with_loop { loop_points(c, fade, n_src, p) } else { None };
                    if let (Some((s, e)), true) = (lp, c.rng.chance(0.5)) {
                        rig.send(c, at, Some(t), Ev::Loop(s, e));
                        rig.send(c, at, Some(t), Ev::Start(p));
                    } else {
                        let past_end = m_end(&rig).map(|e| p + 3.0 > e).unwrap_or(false);
                        if past_end && lp.is_none() {
                            continue_block(&mut rig, &mut e, n)?;
                            continue;
                        }
                        if past_end {
                            rig.send(c, at, None, Ev::CancelLoop);
                        }
                        rig.send(c, at, Some(t), Ev::Start(p));
                        if let Some((s, e)) = lp {
                            rig.send(c, at, Some(t), Ev::Loop(s, e));
                        }
                    }
                }
                2 if !playing => {
                    // a late start, by up to several loops
                    let p = c.rng.below(n_src / 2) as f64;
                    let by = c.rng.below(at.min(fade * 12) + 1);
                    if let Some((s, e)) = loop_points(c, fade, n_src, p) {
                        rig.send(c, at, None, Ev::Loop(s, e));
                        rig.send(c, at, Some((at - by) as f64 + 0.25), Ev::Start(p));
                        late += 1;
                    }
                }
                3 if !playing => {
                    if let Some((s, e)) = loop_points(c, fade, n_src, 0.0) {
                        rig.send(c, at, t, Ev::Loop(s, e));
                        unstarted += 1;
                    }
                }
                3 if playing && c.rng.chance(0.05) => {
                    let s = c.rng.below(n_src) as f64;
                    let e = *c.rng.pick(&[s, 0.0, s - 1.0, s + 0.5, s + 1.0 / 4096.0]);
                    rig.send(c, at, t, Ev::Loop(s, e.max(0.0)));
                    empty += 1;
                }
                3 | 4 if playing => {
                    // enable or change the loop
                    let from = if looping { 0.0 } else { m.source_position() + (due - at as f64) };
                    let now = m.source_position();
                    let lp = loop_points(c, fade, n_src, from.max(now + due - at as f64));
                    if let Some((s, e)) = lp {
                        rig.send(c, at, t, Ev::Loop(s, e));
                        if looping {
                            changed += 1;
                        }
                    }
                }
                5 if looping => {
                    rig.send(c, at, t, Ev::CancelLoop);
                    if playing {
                        cancelled += 1;
                    }
                    // with more already scheduled for later
                    if c.rng.chance(0.5) {
                        let later = due.floor() + 0.25 + c.rng.range(1, fade * 3) as f64;
                        match c.rng.below(3) {
                            0 => rig.send(c, at, Some(later), Ev::Stop),
                            1 => {
                                let p = c.rng.below(n_src) as f64;
                                rig.send(c, at, Some(later), Ev::Start(p));
                            }
                            _ => {
                                rig.send(c, at, Some(later), Ev::Stop);
                                let p = c.rng.below(n_src) as f64;
                                let again = later + c.rng.range(fade, fade * 3) as f64;
                                rig.send(c, at, Some(again), Ev::Start(p));
                            }
                        }
                        ahead += 1;
                    }
                }
                6 if playing && c.rng.chance(0.3) => {
                    // stopped, and started again with another loop, all scheduled ahead
                    let stop = due.floor() + 0.25 + c.rng.below(fade) as f64;
                    let start = stop + c.rng.range(fade + 1, fade * 3) as f64;
                    let p = c.rng.below(n_src / 2) as f64;
                    if let Some((s, e)) = loop_points(c, fade, n_src, p) {
                        rig.send(c, at, Some(stop), Ev::Stop);
                        if looping && c.rng.chance(0.5) {
                            rig.send(c, at, Some(stop + 1.0), Ev::CancelLoop);
                        }
                        rig.send(c, at, Some(start), Ev::Loop(s, e));
                        rig.send(c, at, Some(start), Ev::Start(p));
                        ahead += 1;
                        if c.rng.chance(0.2) {
                            // none of which is to happen after all
                            rig.send(c, at, Some(stop + 2.0), Ev::CancelAll);
                            all += 1;
                        }
                    }
                }
                6 if playing => {
                    rig.send(c, at, t, Ev::Stop);
                    if looping {
                        stopped += 1;
                    }
                }
                7 if playing => {
                    let p = c.rng.below(n_src / 2) as f64;
                    if m_end(&rig).map(|e| p + 3.0 < e).unwrap_or(true) {
                        rig.send(c, at, Some(due.floor() + 0.25), Ev::Start(p));
                        restarts += 1;
                    }
                }
                8 if c.rng.chance(0.2) => {
                    rig.send(c, at, None, Ev::CancelAll);
                    all += 1;
                }
                _ => (),
            }
        }
        continue_block(&mut rig, &mut e, n)?;
        if rig.model.ambiguous {
            c.count("undecided", 1);
            break;
        }
    }
    let m = &rig.model;
    c.count("jumps", m.total_loops);
    c.count("stopped_looping", stopped);
    c.count("loop_cancelled", cancelled);
    c.count("loop_changed", changed);
    c.count("loop_without_start", unstarted);
    c.count("late_starts", late);
    c.count("restarts", restarts);
    c.count("cancel_all", all);
    c.count("scheduled_behind", ahead);
    c.count("empty_loops", empty);
    if cancelled > 0 {
        c.count("ends_after_cancel", m.ended);
    }
    c.nontrivial = m.total_loops >= 3;
    Ok(())
}

fn m_end(r: &Rig) -> Option<f64> {
    r.model.loop_points().map(|x| x.1)
}

fn continue_block(r: &mut Rig, e: &mut Eng, n: usize) -> Res {
    r.block(e, n)
}
