//! C21 timestamps and levels: algebraic laws over random and boundary values.
use crate::core::*;
use rawdio::*;
use std::time::Duration;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "batches of timestamps (seconds, samples, beats, durations; magnitudes from one tick to ten days, both signs, rates 1 Hz to 1 MHz, tempos 1 to 1000) and levels (linear 1e-12 to 1e12, -200 to 240 dB, both precisions) checked for round trips, order, exact arithmetic and clamping; non-trivial = every batch",
        quick_cases: 100_000,
        thorough_cases: 5_000_000,
        parallel: true,
        assumptions: &["timestamps within +-12 days (exact in a double)"],
        required: &["round_trips", "orders", "sums", "negative", "consecutive_frames", "level_round_trips", "level_orders", "clamps", "bottom"],
        case,
    }
}

const TICK: f64 = 1.0 / 4294967296.0;

fn ticks(t: Timestamp) -> i128 {
    let v = t.as_seconds() / TICK;
    v as i128
}

fn close(what: &str, got: f64, want: f64, tol: f64) -> Res {
    if (got - want).abs() <= tol {
        Ok(())
    } else {
        fail(what, format!("{what}: {got} instead of {want} (tolerance {tol})"))
    }
}

fn case(c: &mut Case) -> Res {
    let n = 60;
    c.nontrivial = true;
    let sr = match c.rng.below(4) {
        0 => *c.rng.pick(&[44_100, 48_000, 96_000, 192_000]),
        1 => 1_000_000,
        2 => 1,
        _ => c.rng.range(1, 400_000),
    };
    let tempo = match c.rng.below(3) {
        0 => 120.0,
        1 => c.rng.uniform(1.0, 1000.0),
        _ => *c.rng.pick(&[60.0, 1.0, 1000.0, 90.0]),
    };
    c.note(format!("rate {sr} tempo {tempo} seed {}", c.rng.clone().u64()));
    let seconds = |r: &mut Rng| -> f64 {
        let m = match r.below(8) {
            0 => 0.0,
            1 => TICK * r.range(1, 100) as f64,
            2 => r.uniform(0.0, 1e6),
            3 => r.range(0, 1_000_000) as f64,
            _ => r.log_uniform(1e-9, 1e6),
        };
        if r.chance(0.3) {
            -m
        } else {
            m
        }
    };
    let tol = |s: f64| TICK + s.abs() * 4e-16;
    let mut all: Vec<(f64, Timestamp)> = Vec::new();
    for _ in 0..n {
        let s = seconds(&mut c.rng);
        if s < 0.0 {
            c.count("negative", 1);
        }
        let t = match c.rng.below(4) {
            0 => Timestamp::from_seconds(s),
            1 => {
                let smp = s * sr as f64;
                let smp = if c.rng.chance(0.5) { smp.round() } else { smp };
                let t = Timestamp::from_samples(smp, sr);
                let back = t.as_samples(sr);
                close("samples", back, smp, tol(s) * sr as f64 + smp.abs() * 4e-16)?;
                all.push((smp / sr as f64, t));
                continue;
            }
            2 => {
                let b = s * tempo / 60.0;
                let t = Timestamp::from_beats(b, tempo);
                close("beats", t.as_beats(tempo), b, tol(s) * tempo / 60.0 + b.abs() * 1e-15)?;
                t
            }
            _ if s >= 0.0 => {
                let d = Duration::from_secs_f64(s);
                let t = Timestamp::from_duration(d);
                close("duration", t.as_seconds(), d.as_secs_f64(), tol(s))?;
                all.push((d.as_secs_f64(), t));
                continue;
            }
            _ => Timestamp::from_seconds(s),
        };
        close("seconds", t.as_seconds(), s, tol(s) * 1.5)?;
        all.push((s, t));
        c.count("round_trips", 1);
    }
    for i in 0..all.len() {
        let (s, a) = all[i];
        let (u, b) = all[(i * 7 + 3) % all.len()];
        // order
        let apart = (s - u).abs() > 3.0 * TICK + (s.abs() + u.abs()) * 1e-15;
        if apart && (s < u) != (a < b) || apart && (s > u) != (a > b) || apart && a == b {
            return fail("order", format!("{s} and {u} compare as {:?}", a.cmp(&b)));
        }
        if (ticks(a).cmp(&ticks(b)) != a.cmp(&b)) || ((a == b) != (ticks(a) == ticks(b))) {
            return fail("order", format!("{a:?} and {b:?} compare as {:?}", a.cmp(&b)));
        }
        if a.partial_cmp(&b) != Some(a.cmp(&b)) || std::cmp::max(a, b) < std::cmp::min(a, b) {
            return fail("order", format!("{a:?} and {b:?}: inconsistent order"));
        }
        c.count("orders", 1);
        // exact arithmetic
        if ticks(a + b) != ticks(a) + ticks(b) || ticks(a - b) != ticks(a) - ticks(b) {
            return fail("sum", format!("{a:?} +- {b:?} gives {:?} and {:?}", a + b, a - b));
        }
        if ((a + b) - b) != a || a + Timestamp::zero() != a || a - a != Timestamp::zero() {
            return fail("sum", format!("{a:?} and {b:?}: addition and subtraction are not inverse"));
        }
        // increments
        let k = c.rng.below(10_000_000.min(sr * 100_000));
        let inc = a.incremented_by_samples(k, sr);
        close("increment-samples", (ticks(inc) - ticks(a)) as f64 * TICK, k as f64 / sr as f64, tol(k as f64 / sr as f64))?;
        if k > 0 && 1.0 / sr as f64 > TICK && inc <= a {
            return fail("increment-samples", format!("{k} samples do not increment {a:?}"));
        }
        let inc = a.incremented_by_seconds(u);
        close("increment-seconds", (ticks(inc) - ticks(a)) as f64 * TICK, u, tol(u))?;
        let beats = u * tempo / 60.0;
        let inc = a.incremented_by_beats(beats, tempo);
        close("increment-beats", (ticks(inc) - ticks(a)) as f64 * TICK, u, tol(u) * 1.5)?;
        c.count("sums", 1);
    }
    // frame times stay distinct, in order and close to their frame for hours
    let start = c.rng.below((1e5 * sr as f64) as usize);
    let mut last: Option<Timestamp> = None;
    for k in start..start + 50 {
        let t = Timestamp::from_samples(k as f64, sr);
        if let Some(l) = last {
            if t <= l {
                return fail("frames", format!("frames {} and {k} at {sr} Hz: {l:?} and {t:?}", k - 1));
            }
        }
        if t.as_samples(sr).round() as usize != k {
            return fail("frames", format!("frame {k} at {sr} Hz comes back as {}", t.as_samples(sr)));
        }
        last = Some(t);
        c.count("consecutive_frames", 1);
    }
    // levels
    let floor_db = -128.0;
    let mut levels: Vec<f64> = Vec::new();
    for _ in 0..n {
        let db = match c.rng.below(6) {
            0 => floor_db,
            1 => c.rng.uniform(-200.0, floor_db),
            2 => c.rng.uniform(floor_db, -120.0),
            3 => *c.rng.pick(&[0.0, -6.0, 6.0, 20.0, 100.0, 240.0, -127.999]),
            _ => c.rng.uniform(-128.0, 240.0),
        };
        let l = Level::from_db(db);
        let lin = l.as_linear();
        if db <= floor_db {
            c.count("bottom", 1);
            if lin != 0.0 || !l.is_zero() || l.as_db() != floor_db {
                return fail("bottom", format!("{db} dB is {lin}, {} dB", l.as_db()));
            }
        } else {
            let want = 10f64.powf(db / 20.0);
            close("from_db", lin, want, want * 1e-12)?;
            close("db-round-trip", l.as_db(), db, 1e-9)?;
            c.count("level_round_trips", 1);
        }
        let f = db as f32;
        if Level::from_db_f32(f) != Level::from_db(f as f64) {
            close("from_db_f32", Level::from_db_f32(f).as_linear(), Level::from_db(f as f64).as_linear(), lin * 1e-6)?;
        }
        close("linear_f32", l.as_linear_f32() as f64, lin, lin * 1e-7)?;
        levels.push(db);
        let lin = match c.rng.below(5) {
            0 => 0.0,
            1 => c.rng.log_uniform(1e-12, 1e-6),
            2 => 1.0,
            _ => c.rng.log_uniform(1e-7, 1e12),
        };
        let l = Level::from_linear(lin);
        if l.as_linear() != lin {
            return fail("linear", format!("{lin} comes back as {}", l.as_linear()));
        }
        let want = if lin <= 0.0 { floor_db } else { (20.0 * lin.log10()).max(floor_db) };
        close("as_db", l.as_db(), want, 1e-9)?;
        if want > floor_db + 1e-6 {
            close("linear-round-trip", Level::from_db(l.as_db()).as_linear(), lin, lin * 1e-9)?;
        }
        levels.push(want);
        if lin == 1.0 && (!l.is_unity() || l != Level::unity()) || lin == 0.0 && (!l.is_zero() || l != Level::zero()) {
            return fail("unity-zero", format!("{l:?}"));
        }
        if (lin - 1.0).abs() > 1e-6 && l.is_unity() || lin > 1e-6 && l.is_zero() {
            return fail("unity-zero", format!("{l:?} is taken for unity or zero"));
        }
    }
    for i in 0..levels.len() {
        let (a, b) = (levels[i], levels[(i * 11 + 5) % levels.len()]);
        let (x, y) = (Level::from_db(a), Level::from_db(b));
        if a > floor_db && b > floor_db && b - a > 1e-9 && !(x.as_linear() < y.as_linear() && x < y && x.as_db() < y.as_db()) {
            return fail("level-order", format!("{a} dB and {b} dB are {x:?} and {y:?}"));
        }
        if a <= b && x.as_linear() > y.as_linear() {
            return fail("level-order", format!("{a} dB and {b} dB are {x:?} and {y:?}"));
        }
        c.count("level_orders", 1);
        let (lo, hi) = if x <= y { (x, y) } else { (y, x) };
        let z = Level::from_db(levels[(i * 3 + 1) % levels.len()]);
        let w = z.clamp(&lo, &hi);
        let want = if z < lo {
            lo
        } else if z > hi {
            hi
        } else {
            z
        };
        if w != want {
            return fail("clamp", format!("{z:?} clamped to {lo:?}..{hi:?} is {w:?}"));
        }
        c.count("clamps", 1);
    }
    // monotone in the linear value, down to nothing
    let mut l = c.rng.log_uniform(1e-12, 1e-6);
    let mut prev = Level::from_linear(0.0).as_db();
    for _ in 0..40 {
        let d = Level::from_linear(l).as_db();
        if d < prev {
            return fail("level-order", format!("{l} has {d} dB, a smaller level has {prev} dB"));
        }
        prev = d;
        l *= 1.0 + c.rng.f64();
    }
    Ok(())
}
