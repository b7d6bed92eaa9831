//! C01 transport, time and silence.
//!
//! Oracle: a counter of rendered frames. A chain "input -> gain g -> output"
//! (g exact) makes every rendered frame predictable, so dropped, duplicated or
//! reordered commands and stale output are visible.
use crate::core::*;
use crate::eng::*;
use rawdio::{prelude::*, *};

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "random start/stop/process/set-gain/route histories over random engine options; non-trivial = at least one start, one stop and two rendered blocks with an irregular size",
        quick_cases: 20000,
        thorough_cases: 60_000,
        parallel: true,
        assumptions: &["time is compared within two timestamp ticks (2^-31 s)"],
        required: &["floods", "started_blocks", "stopped_blocks", "time_checks"],
        case,
    }
}

/// How many commands to issue in a row: a few, or now and then very many.
fn flood(c: &mut Case, few: usize) -> usize {
    if !c.rng.chance(0.01) {
        return c.rng.range(1, few);
    }
    c.count("floods", 1);
    let most = if c.rng.chance(0.1) { 100_000.0 } else { 10_000.0 };
    c.rng.log_uniform(20.0, most) as usize
}

fn case(c: &mut Case) -> Res {
    let sr = if c.rng.chance(0.2) { c.rng.range(1, 200_000) } else { rate(&mut c.rng) };
    let maxf = max_frames(&mut c.rng);
    let maxch = channels(&mut c.rng, 6);
    let node_ch = c.rng.range(1, maxch);
    let long = c.index % 50 == 0;
    let mut e = Eng::new(sr, maxch, maxf);
    let mut gains: Vec<Gain> = Vec::new();
    gains.push(Gain::new(e.ctx.as_ref(), node_ch));
    gains.push(Gain::new(e.ctx.as_ref(), node_ch));
    let mut level = [1.0f64, 1.0];
    gains[0].node.connect_to_input();
    let mut in_at = Some(0usize);
    let mut out_at: Option<usize> = None;
    c.note(format!("sr={sr} maxf={maxf} maxch={maxch} node_ch={node_ch}"));
    let mut started = false;
    let mut rendered = 0usize;
    if c.index % 16 == 3 {
        rendered = e.warp(&mut c.rng);
        c.note(format!("warped to {rendered}"));
        started = true;
    }
    let mut first_started_frame = None;
    let steps = if long { 300 } else { c.rng.range(6, 40) };
    let (mut starts, mut stops, mut irregular) = (0, 0, 0);
    if rendered == 0 && e.ctx.current_time() != Timestamp::zero() {
        return fail("time-at-start", "time is not zero before anything is rendered".into());
    }
    if e.ctx.get_sample_rate() != sr || e.ctx.maximum_frame_count() != maxf {
        return fail("options", "context does not report the engine options".into());
    }
    for _ in 0..steps {
        match c.rng.below(10) {
            0 => {
                e.ctx.start();
                started = true;
                starts += 1;
                c.note("start".into());
            }
            1 => {
                if c.rng.chance(0.6) {
                    e.ctx.stop();
                    started = false;
                    stops += 1;
                    c.note("stop".into());
                } else {
                    // several in a row: the last one counts
                    let n = flood(c, 5);
                    for _ in 0..n {
                        if c.rng.chance(0.5) {
                            e.ctx.start();
                            started = true;
                        } else {
                            e.ctx.stop();
                            started = false;
                        }
                    }
                    c.note(format!("burst of {n}, now started={started}"));
                }
            }
            2 => {
                let k = c.rng.below(2);
                let n = flood(c, 3);
                for _ in 0..n {
                    level[k] = *c.rng.pick(&[0.0, 1.0, 2.0, 0.5, -1.0, 0.25, 4.0, -0.125]);
                    gains[k].gain().set_value_now(level[k]);
                }
                // the change lands at the first rendered frame
                c.note(format!("gain{k}={}", level[k]));
            }
            3 => {
                let k = c.rng.below(2);
                let n = flood(c, 1);
                for i in 0..n {
                    gains[(k + n - 1 - i) % 2].node.connect_to_output();
                }
                out_at = Some(k);
                c.note(format!("output<-{k} after {n}"));
            }
            4 => {
                let k = c.rng.below(2);
                gains[k].node.connect_to_input();
                in_at = Some(k);
                c.note(format!("input->{k}"));
            }
            _ => {
                let n = match c.rng.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => maxf,
                    3 => maxf + 1,
                    4 => 3 * maxf + c.rng.below(maxf + 1),
                    _ => c.rng.range(1, 2 * maxf + 2),
                };
                let n = if long { n * 7 } else { n };
                if n % maxf != 0 {
                    irregular += 1;
                }
                let ich = c.rng.range(0, maxch + 2);
                let och = c.rng.range(0, maxch + 2);
                let scale = (1 << c.rng.below(4)) as f32;
                let mut ib = OwnedAudioBuffer::new(n, ich, sr);
                for ch in 0..ich {
                    for i in 0..n {
                        ib.set_sample(
                            SampleLocation::new(ch, i),
                            ((rendered + i) % 97 + 1 + ch * 100) as f32 / scale,
                        );
                    }
                }
                let mut ob = OwnedAudioBuffer::new(n, och, sr);
                let dirt = *c.rng.pick(&[f32::NAN, 1.0, f32::INFINITY, -3.5, DIRT]);
                ob.fill_with_value(dirt);
                let before = e.ctx.current_time();
                e.proc.process(&ib, &mut ob);
                let after = e.ctx.current_time();
                c.note(format!("process n={n} in={ich} out={och} started={started}"));
                for ch in 0..och {
                    let d = ob.get_channel_data(SampleLocation::channel(ch));
                    for i in 0..n {
                        let want = if started
                            && out_at.is_some()
                            && out_at == in_at
                            && ch < node_ch
                            && ch < ich
                        {
                            (((rendered + i) % 97 + 1 + ch * 100) as f32 / scale)
                                * level[out_at.unwrap()] as f32
                        } else {
                            0.0
                        };
                        if !((d[i] - want).abs() <= 1e-5 * want.abs()) {
                            let (sig, what) = if !started {
                                ("not-silent-when-stopped", "stopped")
                            } else {
                                ("wrong-output", "started")
                            };
                            return fail(
                                sig,
                                format!("{what}: output channel {ch} frame {i} of a {n}-frame call is {} instead of {want} (buffer was filled with {dirt})", d[i]),
                            );
                        }
                    }
                }
                c.count("samples_compared", n * och);
                if started {
                    if first_started_frame.is_none() {
                        first_started_frame = Some(rendered);
                    }
                    rendered += n;
                    c.count("started_blocks", 1);
                } else {
                    c.count("stopped_blocks", 1);
                }
                let want = rendered as f64 / sr as f64;
                let got = after.as_seconds();
                c.count("time_checks", 1);
                if (got - want).abs() > 5e-10 {
                    return fail(
                        "time",
                        format!("context time {got} after {rendered} rendered frames at {sr} Hz, expected {want}"),
                    );
                }
                if !started && after != before {
                    return fail("time-moved-while-stopped", format!("time went from {before:?} to {after:?} while stopped"));
                }
                if started && n > 0 && sr < 1_000_000 && after <= before {
                    return fail("time-not-advancing", format!("time did not advance over {n} frames"));
                }
            }
        }
    }
    c.nontrivial = starts > 0 && stops > 0 && irregular > 1;
    // drop order must not matter
    if c.rng.chance(0.5) {
        drop(e);
    }
    Ok(())
}
