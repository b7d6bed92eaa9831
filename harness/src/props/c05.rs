//! C05 parameter automation: every value a parameter takes is observed by a
//! probe processor and compared with a model of the schedule.
use crate::core::*;
use crate::eng::*;
use crate::model::*;
use crate::probe::*;
use rawdio::prelude::*;
use std::sync::atomic::Ordering;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "random schedules of sets, linear and exponential ramps (in any submission order, also late ones), cancellations and clamped values on several parameters, rendered in irregular blocks; non-trivial = at least 3 changes took effect and one of them was a ramp or a cancellation",
        quick_cases: 30_000,
        thorough_cases: 40_000,
        parallel: true,
        assumptions: &["change windows of one parameter do not overlap", "a ramp's samples may be off by one sample period along the curve"],
        required: &["in_lanes", "held_values", "ramp_values", "cancelled", "cancelled_at_end", "late", "clamped", "reported_values"],
        case,
    }
}

struct P {
    lo: f64,
    hi: f64,
    model: ParamModel,
    /// earliest sample at which a new change may start
    free: f64,
}

fn value(c: &mut Case, lo: f64, hi: f64) -> f64 {
    match c.rng.below(8) {
        0 => lo.max(-1e4),
        1 => hi.min(1e4),
        2 => lo.max(-50.0) - 1.0,
        3 => hi.min(50.0) + 1.0,
        4 => 0.0,
        5 => 1.0,
        _ => c.rng.uniform(lo.max(-100.0), hi.min(100.0)),
    }
}

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    let maxf = max_frames(&mut c.rng);
    let mut e = Eng::new(sr, 2, maxf);
    let base = if c.index % 16 == 3 { e.warp(&mut c.rng) } else { 0 };
    const RANGES: &[(f64, f64, f64)] = &[
        (1.0, f64::NEG_INFINITY, f64::INFINITY),
        (0.0, -1.0, 1.0),
        (0.5, 0.0, 1.0),
        (100.0, 20.0, 20_000.0),
        (-3.0, -10.0, -0.5),
        (7.0, 7.0, 7.0),
    ];
    const NAMES: [&str; 4] = ["a", "b", "c", "d"];
    let nn = c.rng.range(1, 3);
    let mut nodes = Vec::new();
    let mut ps: Vec<Vec<P>> = Vec::new();
    for _ in 0..nn {
        let np = c.rng.range(1, 4);
        let spec: Vec<_> = (0..np)
            .map(|k| {
                let r = *c.rng.pick(RANGES);
                (NAMES[k], r.0, r.1, r.2)
            })
            .collect();
        let (n, p, log) = param_node(e.ctx.as_ref(), &spec);
        nodes.push((n, p, log));
        ps.push(
            spec.iter()
                .map(|s| P {
                    lo: s.2,
                    hi: s.3,
                    model: ParamModel::new(s.1, s.2, s.3),
                    free: base as f64,
                })
                .collect(),
        );
    }
    e.ctx.start();
    // a whole automation lane of hundreds of changes at once
    let mut lane = c.index % 25 == 6;
    let total = if lane { c.rng.range(2_000, 12_000) } else { c.rng.range(50, if c.thorough() { 20_000 } else { 4_000 }) };
    let sizes = partition(&mut c.rng, total, maxf, &[]);
    // commands can only be issued between calls; bound their number
    let sizes: Vec<usize> = sizes;
    let p_cmd = (60.0 / sizes.len() as f64).min(0.6);
    let mut applied = 0;
    let mut interesting = 0;
    c.note(format!("sr={sr} maxf={maxf} total={total} blocks={} from={base}", sizes.len()));
    let empty: Sig = vec![vec![]];
    let mut checked = 0usize;
    for (bi, n) in sizes.iter().enumerate() {
        let now = e.pos;
        if bi == 0 || c.rng.chance(p_cmd) {
            let ops = c.rng.range(1, 8);
            for _ in 0..ops {
                let ni = c.rng.below(nn);
                let pi = c.rng.below(ps[ni].len());
                let p = &mut ps[ni][pi];
                let h = &mut nodes[ni].1[pi];
                match c.rng.below(12) {
                    0 | 1 => {
                        // set now: only when no window is pending before now
                        if p.free <= now as f64 || p.model.pending.is_empty() && !p.model.ramping() {
                            let v = value(c, p.lo, p.hi);
                            h.set_value_now(v);
                            p.model.set_now(v);
                            if v < p.lo || v > p.hi {
                                c.count("clamped", 1);
                            }
                            c.note(format!("@{now} n{ni}.{pi} set now {v}"));
                            applied += 1;
                        }
                    }
                    2 => {
                        h.cancel_scheduled_changes();
                        let k = p.model.cancel(None);
                        c.count("cancelled", k);
                        interesting += (k > 0) as usize;
                        c.note(format!("@{now} n{ni}.{pi} cancel all ({k})"));
                    }
                    3 | 4 => {
                        let mut t = now as f64 + c.rng.range(0, 600) as f64;
                        if !p.model.pending.is_empty() && c.rng.chance(0.5) {
                            // exactly the end of a change, which stays
                            t = c.rng.pick(&p.model.pending).end;
                            c.count("cancelled_at_end", 1);
                        }
                        h.cancel_scheduled_changes_ending_after(Timestamp::from_samples(t, sr));
                        let k = p.model.cancel(Some(t));
                        c.count("cancelled", k);
                        interesting += (k > 0) as usize;
                        c.note(format!("@{now} n{ni}.{pi} cancel after {t} ({k})"));
                    }
                    _ => {
                        // one to four new changes one after the other, possibly
                        // submitted in another order
                        if p.free > now as f64 + 3000.0 {
                            continue;
                        }
                        let mut list = Vec::new();
                        let mut at = p.free.max(if c.rng.chance(0.5) { 0.0 } else { now as f64 });
                        let cnt = if lane { c.rng.range(30, 400) } else { c.rng.range(1, 5) };
                        if std::mem::take(&mut lane) {
                            c.count("in_lanes", cnt);
                        }
                        for _ in 0..cnt {
                            let kind = *c.rng.pick(&[Kind::Set, Kind::Set, Kind::Lin, Kind::Lin, Kind::Exp]);
                            let kind = if kind == Kind::Exp && !(p.lo > 0.0 || p.hi < 0.0) { Kind::Lin } else { kind };
                            let gap = match c.rng.below(4) {
                                0 => 0,
                                _ if cnt > 5 => c.rng.range(0, 20),
                                1 => c.rng.range(1, 3),
                                _ => c.rng.range(0, 200),
                            } as f64;
                            let start = (at + gap).floor() + 0.5;
                            let end = match kind {
                                Kind::Set => start,
                                _ => start + match c.rng.below(4) {
                                    0 => c.rng.range(1, 4),
                                    _ if cnt > 5 => c.rng.range(1, 60),
                                    1 => c.rng.range(1, 40),
                                    _ => c.rng.range(1, 900),
                                } as f64 + *c.rng.pick(&[0.0, 0.25, 0.4]),
                            };
                            let v = value(c, p.lo, p.hi);
                            if v < p.lo || v > p.hi {
                                c.count("clamped", 1);
                            }
                            list.push(Change { start, end, kind, value: v });
                            // ties between ends are only defined among sets
                            at = if kind == Kind::Set { end - 0.5 } else { end };
                            if kind == Kind::Set && c.rng.chance(0.5) {
                                at = end;
                            }
                            if kind != Kind::Set {
                                interesting += 1;
                            }
                        }
                        // a ramp may not start at the very time of a set before it: keep it apart
                        for i in 1..list.len() {
                            if list[i].start <= list[i - 1].end && (list[i].kind != Kind::Set || list[i - 1].kind != Kind::Set) {
                                let d = (list[i - 1].end - list[i].start).floor() + 1.0;
                                for l in &mut list[i..] {
                                    l.start += d;
                                    l.end += d;
                                }
                            }
                        }
                        p.free = p.free.max(list.last().unwrap().end + 1.0);
                        // sets at one time take effect in submission order, so keep those in order
                        let distinct = list.windows(2).all(|w| w[0].end < w[1].end);
                        if distinct {
                            c.rng.shuffle(&mut list);
                        }
                        for l in &list {
                            if l.end < now as f64 {
                                c.count("late", 1);
                            }
                            let (s, t) = (Timestamp::from_samples(l.start, sr), Timestamp::from_samples(l.end, sr));
                            match l.kind {
                                Kind::Set => h.set_value_at_time(l.value, t),
                                Kind::Lin => h.linear_ramp_to_value(l.value, s, t),
                                Kind::Exp => h.exponential_ramp_to_value(l.value, s, t),
                            }
                            p.model.add(*l);
                            c.note(format!("@{now} n{ni}.{pi} {:?} {}..{} -> {}", l.kind, l.start, l.end, l.value));
                            applied += 1;
                        }
                    }
                }
            }
        }
        let mut out = new_sig(0);
        e.block(&empty, &mut out, *n);
        for ni in 0..nn {
            let log = nodes[ni].2.lock().unwrap();
            for pi in 0..ps[ni].len() {
                let p = &mut ps[ni][pi];
                if log[pi].len() != e.pos - base {
                    return fail("frames", format!("{} values for {} frames", log[pi].len(), e.pos));
                }
                let mut last = None;
                for f in now..e.pos {
                    let (lo, hi) = p.model.step(f);
                    let got = log[pi][f - base] as f64;
                    let tol = 2e-6 * lo.abs().max(hi.abs()) + 1e-9;
                    last = Some((lo - tol, hi + tol));
                    checked += 1;
                    if lo == hi {
                        c.count("held_values", 1);
                    } else {
                        c.count("ramp_values", 1);
                    }
                    if !(got >= lo - tol && got <= hi + tol) {
                        let sig = if lo == hi { "held-value" } else { "ramp-value" };
                        return fail(
                            sig,
                            format!("node {ni} parameter {pi} at frame {f} is {got}, expected {}", if lo == hi { format!("{lo}") } else { format!("{lo}..{hi}") }),
                        );
                    }
                    if got < p.lo - 1e-6 * p.lo.abs() || got > p.hi + 1e-6 * p.hi.abs() {
                        return fail("range", format!("value {got} outside {}..{}", p.lo, p.hi));
                    }
                }
                if let Some((lo, hi)) = last {
                    let v = nodes[ni].1[pi].get_value().load(Ordering::Acquire);
                    c.count("reported_values", 1);
                    if !(v >= lo && v <= hi) || (v as f32 - log[pi][e.pos - base - 1]).abs() > 1e-5 * v.abs() as f32 {
                        return fail("reported-value", format!("node {ni} parameter {pi}: reported {v} after the block that ends at {} with {}", e.pos, log[pi][e.pos - base - 1]));
                    }
                }
            }
        }
    }
    c.nontrivial = applied >= 3 && interesting >= 1 && checked > 0;
    Ok(())
}
