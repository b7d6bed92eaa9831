//! C10 recorder: exactly-once, in-order capture.
use crate::core::*;
use crate::eng::*;
use rawdio::prelude::*;
use rawdio::*;

const CHUNK: usize = 4096;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "random recordings (several per run, record and stop requests repeated, early, late and in one frame; lengths from nothing to many internal buffers and exactly at their boundaries), takes and notification processing at random intervals, 1 to 4 channels, irregular blocks, two recorders at once, runs in which notifications are not processed for long, recorders used for dozens of recordings; non-trivial = at least two recordings or one longer than an internal buffer",
        quick_cases: 6000,
        thorough_cases: 100_000,
        parallel: true,
        assumptions: &["the recording is taken before the next one is started", "notifications processed at least every 100000 frames (else frames may be missing, but only whole stretches)"],
        required: &["recordings", "long_recordings", "boundary_length", "partial_takes", "overruns", "late_stops", "repeated_requests", "frames_recorded", "flag_checks", "large_batches", "taken_after_restart", "more_than_50_recordings"],
        case,
    }
}

struct Track {
    rec: std::rc::Rc<std::cell::RefCell<Recorder>>,
    ch: usize,
    recording: bool,
    /// frames recorded and not taken yet (by frame number)
    expected: std::collections::VecDeque<usize>,
    pending: Vec<(f64, usize, bool)>,
    seq: usize,
    flag: bool,
    undrained: usize,
    lossy: bool,
    settling: bool,
    ever: usize,
    length: usize,
    /// frames of a finished recording that were delivered and not taken yet
    ready: usize,
}

impl Track {
    fn send(&mut self, c: &mut Case, now: usize, sr: usize, start: bool, t: Option<f64>) {
        c.note(format!("@{now} {} {t:?}", if start { "record" } else { "stop" }));
        let mut r = self.rec.borrow_mut();
        match (start, t) {
            (true, _) => r.record_now(),
            (false, None) => r.stop_record_now(),
            (false, Some(t)) => r.stop_record_at_time(Timestamp::from_samples(t, sr)),
        }
        self.pending.push((t.unwrap_or(0.0), self.seq, start));
        self.pending.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
        self.seq += 1;
    }
    fn frame(&mut self, c: &mut Case, i: usize) {
        while self.pending.first().map(|p| p.0.floor() as usize <= i).unwrap_or(false) {
            let p = self.pending.remove(0);
            if p.2 == self.recording {
                c.count("repeated_requests", 1);
            }
            if p.2 && !self.recording {
                self.ever += 1;
                self.length = 0;
            }
            if !p.2 && self.recording {
                if self.length % CHUNK == 0 {
                    c.count("boundary_length", 1);
                }
                if self.length > CHUNK {
                    c.count("long_recordings", 1);
                }
            }
            self.recording = p.2;
        }
        if self.recording {
            self.expected.push_back(i);
            self.length += 1;
        }
    }
    /// a recording that was taken: the next expected frames, nothing else
    fn taken(&mut self, c: &mut Case, input: &Sig, base: usize, whole: bool) -> Res {
        // frames of a recording started since cannot be in it yet
        let later = if self.ready > 0 { self.expected.split_off(self.ready) } else { Default::default() };
        if self.ready > 0 && !later.is_empty() {
            c.count("taken_after_restart", 1);
        }
        self.ready = 0;
        self.taken_of(c, input, base, whole)?;
        self.expected.extend(later);
        Ok(())
    }
    fn taken_of(&mut self, c: &mut Case, input: &Sig, base: usize, whole: bool) -> Res {
        let got = self.rec.borrow_mut().take_recording();
        let n = got.as_ref().map(|g| g.frame_count()).unwrap_or(0);
        if let Some(g) = &got {
            if g.channel_count() != self.ch {
                return fail("channels", format!("recording has {} channels instead of {}", g.channel_count(), self.ch));
            }
        }
        if n > self.expected.len() {
            return fail("extra", format!("{n} frames recorded when {} were due", self.expected.len()));
        }
        if !self.lossy && whole && n != self.expected.len() {
            return fail("missing", format!("{n} frames recorded when {} were due", self.expected.len()));
        }
        if n > 0 {
            c.count("frames_recorded", n);
        }
        let mut k = 0;
        while k < n {
            let g = got.as_ref().unwrap();
            let want = self.expected.pop_front();
            let same = |f: usize| {
                (0..self.ch).all(|ch| {
                    let v = input[ch].get(f - base).copied().unwrap_or(0.0);
                    g.get_sample(SampleLocation::new(ch, k)).to_bits() == v.to_bits()
                })
            };
            match want {
                Some(f) if same(f) => k += 1,
                Some(_) if self.lossy && k % CHUNK == 0 && self.expected.len() >= CHUNK => {
                    // one internal buffer is missing
                    self.expected.drain(..CHUNK - 1);
                }
                Some(f) => {
                    let g: Vec<f32> = (0..self.ch).map(|ch| g.get_sample(SampleLocation::new(ch, k))).collect();
                    let w: Vec<f32> = (0..self.ch).map(|ch| input[ch].get(f - base).copied().unwrap_or(0.0)).collect();
                    return fail("content", format!("recorded frame {k} of {n} is {g:?}, the input at frame {f} was {w:?}"));
                }
                None => return fail("extra", format!("{n} frames recorded, only {k} are frames of the input")),
            }
        }
        if whole {
            self.expected.clear();
            self.lossy = false;
        }
        Ok(())
    }
}

fn case(c: &mut Case) -> Res {
    let sr = rate(&mut c.rng);
    // now and then, blocks that span several of the recorder's buffers
    // a recorder is used for many recordings
    let busy = c.index % 40 == 19;
    let maxf = if busy {
        c.rng.range(16, 256)
    } else if c.rng.chance(0.05) {
        c.rng.log_uniform(4096.0, 20_000.0) as usize
    } else {
        max_frames(&mut c.rng)
    };
    let overrun = c.index % 40 == 9;
    let channels = crate::eng::channels(&mut c.rng, 4);
    let mut e = Eng::new(sr, channels.max(4), maxf);
    let base = if c.index % 16 == 3 { e.warp(&mut c.rng) } else { 0 };
    let fan = Gain::new(e.ctx.as_ref(), channels);
    fan.node.connect_to_input();
    let mut tracks: Vec<Track> = (0..c.rng.range(1, 2))
        .map(|_| {
            let ch = channels;
            let rec = Recorder::new(e.ctx.as_mut(), ch, sr);
            // only one node can be connected to the input
            fan.node.connect_to(&rec.borrow().node);
            Track {
                rec,
                ch,
                recording: false,
                expected: Default::default(),
                pending: vec![],
                seq: 0,
                flag: false,
                undrained: 0,
                lossy: false,
                settling: false,
                ever: 0,
                length: 0,
                ready: 0,
            }
        })
        .collect();
    let total = if overrun {
        c.rng.range(150_000, 300_000)
    } else if busy {
        c.rng.range(30_000, 80_000)
    } else if maxf > 4096 || c.rng.chance(0.3) {
        c.rng.range(10_000, 60_000)
    } else {
        c.rng.range(10, 9000)
    };
    let input = noise(&mut c.rng, channels, total);
    let sizes = if overrun { partition(&mut c.rng, total, maxf.max(64), &[]) } else { partition(&mut c.rng, total, maxf, &[]) };
    c.note(format!("sr={sr} x{channels} maxf={maxf} total={total} from={base} recorders={} overrun={overrun}", tracks.len()));
    e.ctx.start();
    let p_cmd = if busy { 0.7 } else { (c.rng.uniform(1.5, 12.0) / sizes.len() as f64).min(0.7) };
    let p_take = *c.rng.pick(&[0.02, 0.3, 1.0]);
    let p_drain = if busy { 1.0 } else { *c.rng.pick(&[0.05, 0.5, 1.0]) };
    for n in sizes {
        let at = e.pos;
        for t in tracks.iter_mut() {
            if c.rng.chance(p_cmd * 0.05) && !busy {
                // many requests that change nothing
                let on = t.recording;
                for _ in 0..50 {
                    if t.pending.is_empty() || t.recording == on && t.pending.iter().all(|p| p.0 == 0.0) {
                        t.send(c, at, sr, on, None);
                    }
                }
                c.count("large_batches", 1);
            }
            if t.pending.len() < 12 && c.rng.chance(if t.ready > 0 { p_cmd.max(0.15) } else { p_cmd }) {
                for _ in 0..if c.rng.chance(0.1) { 2 } else { 1 } {
                    let when = match c.rng.below(6) {
                        0 => None,
                        1 => {
                            c.count("late_stops", 1);
                            Some(c.rng.below(at + 1) as f64 + 0.25)
                        }
                        2 if !busy => Some(at as f64 + (c.rng.range(1, 3) * CHUNK) as f64 + 0.25),
                        _ => Some(at as f64 + c.rng.log_uniform(1.0, if busy { 500.0 } else { total as f64 }).floor() + *c.rng.pick(&[0.25, 0.5, 0.75])),
                    };
                    // the one before must have been taken
                    let when = if overrun && c.rng.chance(0.7) { Some((at + total) as f64 + 0.25) } else { when };
                    let may_start = t.recording || t.expected.len() == t.ready;
                    let start_pending = t.pending.iter().any(|p| p.2);
                    if c.rng.chance(0.55) {
                        if (may_start && !start_pending && t.pending.is_empty()) || t.recording && t.pending.is_empty() {
                            t.send(c, at, sr, true, None);
                            if c.rng.chance(0.6) {
                                t.send(c, at, sr, false, when);
                            }
                        }
                    } else {
                        t.send(c, at, sr, false, when);
                    }
                }
            }
        }
        let mut out = new_sig(1);
        e.pos = at - base;
        e.block(&input, &mut out, n);
        e.pos = at + n;
        for t in tracks.iter_mut() {
            for i in at..at + n {
                t.frame(c, i);
            }
            t.undrained += n;
            if t.undrained > 100_000 && t.recording {
                if !t.lossy {
                    c.count("overruns", 1);
                }
                t.lossy = true;
            }
        }
        let hold = overrun && tracks.iter().any(|t| t.recording);
        let must = tracks.iter().any(|t| t.undrained + 4 * maxf > 90_000);
        if (!hold && (must || c.rng.chance(p_drain))) || (hold && c.rng.chance(0.0005)) {
            for t in tracks.iter_mut() {
                if t.ready > 0 {
                    t.taken(c, &input, base, true)?;
                }
            }
            e.ctx.process_notifications();
            for t in tracks.iter_mut() {
                t.undrained = 0;
                if t.lossy {
                    // the flag follows as soon as there is space again
                    t.settling = true;
                } else {
                    t.settling = false;
                }
                t.flag = t.recording;
                c.count("flag_checks", 1);
                // whatever was started and is not any more can be taken
                let done = !t.recording;
                if done && !t.lossy && c.rng.chance(0.4) {
                    t.ready = t.expected.len();
                } else if done || c.rng.chance(p_take) {
                    if !done {
                        c.count("partial_takes", 1);
                    }
                    t.taken(c, &input, base, done)?;
                }
            }
        }
        for t in tracks.iter_mut() {
            if t.ready > 0 && c.rng.chance(0.2) {
                t.taken(c, &input, base, true)?;
            }
            let f = t.rec.borrow().is_recording();
            if f != t.flag && !t.lossy && !t.settling {
                return fail("flag", format!("is_recording() is {f} at frame {} when the last processed state is {}", e.pos, t.flag));
            }
        }
    }
    let mut long = false;
    for k in 0..tracks.len() {
        let at = e.pos;
        tracks[k].send(c, at, sr, false, None);
        long |= tracks[k].length > CHUNK;
    }
    let mut out = new_sig(1);
    let at = e.pos;
    e.pos = at - base;
    e.block(&input, &mut out, 1);
    e.pos = at + 1;
    for t in tracks.iter_mut() {
        if t.ready > 0 {
            t.taken(c, &input, base, true)?;
        }
    }
    e.ctx.process_notifications();
    if overrun {
        e.block(&Vec::new(), &mut out, 1);
        e.ctx.process_notifications();
    }
    for t in tracks.iter_mut() {
        t.frame(c, at);
        if t.rec.borrow().is_recording() {
            return fail("flag", "is_recording() after the stop was processed".into());
        }
        t.taken(c, &input, base, true)?;
        c.count("recordings", t.ever);
        if t.ever > 50 {
            c.count("more_than_50_recordings", 1);
        }
    }
    c.nontrivial = long || tracks.iter().any(|t| t.ever >= 2);
    Ok(())
}
