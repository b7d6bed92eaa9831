//! C20: commands, time and notifications between two threads.
use crate::core::*;
use crate::eng::*;
use crate::monitor;
use crossbeam_channel::perturb;
use rawdio::prelude::*;
use rawdio::verif_hooks::*;
use rawdio::*;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "a control thread issuing commands (parameter values, connections, nodes, start, stop), notes, mixer levels and recording requests, singly, in bursts and in floods, beside an audio thread, with delays on either side, inside the graph and at the channel operations; every part of every process call is compared with the prefixes of the command sequence its interval allows, every reading of the clock (also read without pause while each call ends in another second) with what had been rendered, and every notification and recording with what was sent; non-trivial = commands were issued during process calls",
        quick_cases: 5000,
        thorough_cases: 60_000,
        parallel: true,
        assumptions: &["the order between commands, notes to one ADSR node, levels of one mixer and requests to one recorder is that within each of these", "notifications processed before their queues are full"],
        required: &["raced_calls", "inner_cuts", "commands", "floods", "clock_reads", "clock_values_read", "hammered_calls", "hammered_values_seen", "clock_reads_during_calls", "notifications", "frames_recorded", "stopped_calls", "notes", "levels", "channel_delays", "recordings_ended_by_flag"],
        case,
    }
}

const SOURCES: usize = 18;
const PARAMS: usize = 3;
const NAMES: [&str; PARAMS] = ["p0", "p1", "p2"];

struct Dc(f32);
impl DspProcessor for Dc {
    fn process_audio(&mut self, c: &mut ProcessContext) {
        let n = c.output_buffer.frame_count();
        for i in 0..n {
            c.output_buffer.set_sample(SampleLocation::new(0, i), self.0);
        }
    }
}

fn dc(ctx: &dyn Context, v: f32) -> GraphNode {
    GraphNode::new(Id::generate(), ctx, 0, 1, Box::new(Dc(v)), DspParameters::empty())
}

#[derive(Clone, Default)]
struct Part {
    frames: usize,
    bits: f32,
    level: f32,
    note: f32,
    params: [f32; PARAMS],
    /// not the same in all frames
    torn: Option<String>,
}

/// Sees everything and takes its time.
struct Watcher {
    log: Arc<Mutex<Vec<Part>>>,
    done: Arc<AtomicUsize>,
    inside: Arc<AtomicBool>,
    rng: Rng,
    lazy: f64,
}

impl DspProcessor for Watcher {
    fn process_audio(&mut self, c: &mut ProcessContext) {
        let n = c.output_buffer.frame_count();
        self.inside.store(true, SeqCst);
        delay(&mut self.rng, self.lazy);
        let get = |ch: usize, i: usize| c.input_buffer.get_sample(SampleLocation::new(ch, i));
        let mut p = Part {
            frames: n,
            bits: get(0, 0),
            note: get(1, n - 1),
            level: get(2, 0),
            ..Part::default()
        };
        for i in 1..n {
            if get(0, i) != p.bits {
                p.torn = Some(format!("the connected sources sum to {} in frame 0 and {} in frame {i}", p.bits, get(0, i)));
            }
            if get(2, i) != p.level {
                p.torn = Some(format!("the mixer level is {} in frame 0 and {} in frame {i}", p.level, get(2, i)));
            }
        }
        for k in 0..PARAMS {
            let v = c.parameters.get_parameter_values(NAMES[k], n);
            p.params[k] = v[0];
            if let Some(i) = (1..n).find(|i| v[*i] != v[0]) {
                p.torn = Some(format!("parameter {k} is {} in frame 0 and {} in frame {i}", v[0], v[i]));
            }
        }
        for i in 0..n {
            c.output_buffer.set_sample(SampleLocation::new(0, i), p.bits);
        }
        self.log.lock().unwrap().push(p);
        self.done.fetch_add(n, SeqCst);
        self.inside.store(false, SeqCst);
    }
}

fn delay(r: &mut Rng, lazy: f64) {
    if r.chance(lazy) {
        match r.below(4) {
            0 => std::thread::yield_now(),
            1 => {
                let t = Instant::now();
                let d = Duration::from_nanos(r.log_uniform(100.0, 60_000.0) as u64);
                while t.elapsed() < d {
                    std::hint::spin_loop();
                }
            }
            2 => std::thread::sleep(Duration::from_nanos(r.log_uniform(1000.0, 300_000.0) as u64)),
            _ => {
                for _ in 0..r.below(200) {
                    std::hint::spin_loop();
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Cmd {
    Nothing,
    Connect(usize),
    Disconnect(usize),
    Set(usize, f32),
    Start,
    Stop,
}

#[derive(Clone, Default)]
struct State {
    on: bool,
    bits: u32,
    params: [f32; PARAMS],
}

impl State {
    fn apply(&mut self, c: Cmd) {
        match c {
            Cmd::Nothing => {}
            Cmd::Connect(i) => self.bits |= 1 << i,
            Cmd::Disconnect(i) => self.bits &= !(1 << i),
            Cmd::Set(p, v) => self.params[p] = v,
            Cmd::Start => self.on = true,
            Cmd::Stop => self.on = false,
        }
    }
}

/// how many messages were about to be sent, and had been
#[derive(Default)]
struct Stream {
    issued: AtomicUsize,
    returned: AtomicUsize,
}

const COMMANDS: usize = 0;
const NOTES: usize = 1;
const LEVELS: usize = 2;

#[derive(Clone, Copy, Default)]
struct Span {
    /// returned before the call began
    lo: usize,
    /// issued before the call ended
    hi: usize,
}

struct Call {
    spans: [Span; 3],
    frames: usize,
    /// number of the first input frame
    first: usize,
    parts: Vec<Part>,
    out_wrong: Option<String>,
}

struct Shared {
    streams: [Stream; 3],
    /// frames of completed calls
    rendered: AtomicUsize,
    calls_begun: AtomicUsize,
    calls_done: AtomicUsize,
    /// `rendered` when notifications were last processed
    drained: AtomicUsize,
    delays: AtomicUsize,
    stop: AtomicBool,
    /// control calls took this long at most (ns)
    dead: AtomicBool,
}

struct End<'a>(&'a AtomicBool);
impl Drop for End<'_> {
    fn drop(&mut self) {
        self.0.store(true, SeqCst);
    }
}

/// One thread reads the clock as fast as it can while the other moves it.
fn clock(c: &mut Case) -> Res {
    let sr = *c.rng.pick(&[1, 8, 100, 128, 1000, 44_100]);
    // most calls end in another second than they began in
    let n = if c.rng.chance(0.6) { (sr + c.rng.below(3)).saturating_sub(1).clamp(1, 1000) } else { c.rng.range(1, 1000) };
    c.note(format!("sr={sr} blocks of {n}, the clock read all the time"));
    let Eng { mut proc, mut ctx, .. } = Eng::new(sr, 1, n);
    ctx.start();
    let (begun, ended) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let stop = AtomicBool::new(false);
    let (index, limit) = (c.index, 2_000_000_000 / (n / sr + 1));
    let mut reads = Vec::with_capacity(1 << 16);
    let mut bad = Ok(());
    let mut count = 0usize;
    std::thread::scope(|sc| {
        let (begun, ended, stop) = (&begun, &ended, &stop);
        sc.spawn(move || {
            monitor::set_case(index);
            let _over = End(stop);
            let ib = OwnedAudioBuffer::new(n, 1, sr);
            let mut ob = OwnedAudioBuffer::new(n, 1, sr);
            let t = Instant::now();
            for k in 1..limit {
                begun.store(k, SeqCst);
                proc.process(&ib, &mut ob);
                ended.store(k, SeqCst);
                if k % 64 == 0 && (t.elapsed() > Duration::from_millis(100) || stop.load(SeqCst)) {
                    break;
                }
            }
        });
        let mut last = 0.0;
        while !stop.load(SeqCst) {
            let lo = ended.load(SeqCst);
            let t = ctx.current_time();
            let hi = begun.load(SeqCst);
            count += 1;
            let frames = t.as_seconds() * sr as f64;
            if bad.is_ok() {
                if frames < last {
                    bad = fail("clock", format!("the time went from {last} to {frames} frames"));
                } else if frames < (lo * n) as f64 - 0.01 || frames > (hi * n) as f64 + 0.01 {
                    bad = fail("clock", format!("the time reads {frames} frames when between {} and {} had been rendered", lo * n, hi * n));
                }
                if bad.is_err() {
                    stop.store(true, SeqCst);
                }
            }
            last = frames;
            if reads.len() < 1 << 16 && reads.last() != Some(&t) {
                reads.push(t);
            }
        }
    });
    c.count("clock_reads", count);
    c.count("clock_values_read", reads.len());
    c.nontrivial = reads.len() > 3;
    bad
}

/// One thread sets a value as fast as it can while the other renders single frames.
fn hammer(c: &mut Case) -> Res {
    let n = *c.rng.pick(&[1, 1, 2, 16]);
    let level = c.rng.chance(0.6);
    let pause = *c.rng.pick(&[0, 0, 10, 200]);
    c.note(format!("blocks of {n}, {} set all the time, every {pause}", if level { "levels" } else { "gains" }));
    let Eng { mut proc, mut ctx, .. } = Eng::new(48_000, 1, n);
    let source = dc(ctx.as_ref(), 1.0);
    let mut mixer = Mixer::new(ctx.as_ref(), 1, 1);
    let id = Id::generate();
    let (mut p, rt) = AudioParameter::new(id, "p", ParameterRange::new(0.0, -1.0, 1e9), ctx.as_ref());
    struct Through;
    impl DspProcessor for Through {
        fn process_audio(&mut self, c: &mut ProcessContext) {
            let n = c.output_buffer.frame_count();
            for i in 0..n {
                let v = c.parameters.get_parameter_values("p", n)[i];
                c.output_buffer.set_sample(SampleLocation::frame(i), v);
            }
        }
    }
    let through = GraphNode::new(id, ctx.as_ref(), 1, 1, Box::new(Through), DspParameters::empty().with_parameter(rt));
    source.connect_to(&mixer.node);
    if level {
        mixer.node.connect_to_output();
    } else {
        through.connect_to_output();
    }
    mixer.set_level(0, 0, Level::zero());
    ctx.start();
    let (begun, ended, made) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let stop = AtomicBool::new(false);
    let index = c.index;
    // a call takes values for as long as there are any
    let (jitter_audio, jitter_control) = *c.rng.pick(&[(0, 0), (0, 300), (5, 100), (300, 300)]);
    let (seed_audio, seed_control) = (c.rng.u64(), c.rng.u64());
    let burst = *c.rng.pick(&[5, 40, 40, 300]);
    let (bad, calls, different) = std::thread::scope(|sc| {
        let (begun, ended, made, stop) = (&begun, &ended, &made, &stop);
        let audio = sc.spawn(move || {
            monitor::set_case(index);
            let _over = End(stop);
            let ib = OwnedAudioBuffer::new(n, 1, 48_000);
            let mut ob = OwnedAudioBuffer::new(n, 1, 48_000);
            let t = Instant::now();
            let (mut calls, mut different, mut last) = (0, 0, -1.0);
            let mut bad = Ok(());
            while bad.is_ok() {
                let lo = ended.load(SeqCst);
                perturb::enable(seed_audio ^ calls as u64, jitter_audio);
                proc.process(&ib, &mut ob);
                perturb::disable();
                let hi = begun.load(SeqCst);
                let v = ob.get_sample(SampleLocation::frame(n - 1));
                if v != last {
                    different += 1;
                }
                if (v as f64) < lo as f64 || v as f64 > hi as f64 || v < last {
                    bad = fail("latest", format!("call {calls} uses {v} after {last}, when the values set were {lo}..={hi}"));
                }
                last = v;
                calls += 1;
                made.store(calls, SeqCst);
                if calls % 64 == 0 && t.elapsed() > Duration::from_millis(60) {
                    break;
                }
            }
            (bad, calls, different)
        });
        let (mut since, mut seen) = (0, 0);
        for k in 1..8_000_000usize {
            since += 1;
            loop {
                let m = made.load(SeqCst);
                if m != seen {
                    (seen, since) = (m, 0);
                }
                if since < burst || stop.load(SeqCst) {
                    break;
                }
                std::hint::spin_loop();
            }
            if stop.load(SeqCst) {
                break;
            }
            begun.store(k, SeqCst);
            perturb::enable(seed_control ^ k as u64, jitter_control);
            if level {
                mixer.set_level(0, 0, Level::from_linear(k as f64));
            } else {
                p.set_value_now(k as f64);
            }
            perturb::disable();
            ended.store(k, SeqCst);
            for _ in 0..pause {
                std::hint::spin_loop();
            }
        }
        audio.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    });
    c.count("hammered_calls", calls);
    c.count("hammered_values_seen", different);
    c.nontrivial = different > 10;
    bad
}

fn case(c: &mut Case) -> Res {
    match c.index % 20 {
        14 => return clock(c),
        4 | 9 => return hammer(c),
        _ => (),
    }
    let sr = *c.rng.pick(&[48_000, 44_100, 8_000]);
    let maxf = *c.rng.pick(&[64, 16, 128, 512, 33]);
    let biggest = *c.rng.pick(&[maxf, maxf, 2 * maxf + 3, 16]);
    let lazy = *c.rng.pick(&[0.0, 0.05, 0.5, 1.0]);
    let lazy_control = *c.rng.pick(&[0.0, 0.01, 0.1, 0.6]);
    let lazy_audio = *c.rng.pick(&[0.0, 0.05, 0.5]);
    let flood = c.index % 8 == 3;
    let stops = c.index % 3 == 0;
    let interval = c.rng.range(40, 400).max(biggest / 10);
    let ops = if lazy_control > 0.5 { c.rng.range(50, 300) } else { c.rng.range(300, 3000) };
    c.note(format!("sr={sr} maxf={maxf} blocks up to {biggest}, {ops} operations, delays {lazy} {lazy_control} {lazy_audio}, flood={flood} stops={stops}, seed {}", c.rng.clone().u64()));
    let mut e = Eng::new(sr, 4, maxf);
    // graph
    let shared = Shared {
        streams: Default::default(),
        rendered: AtomicUsize::new(0),
        calls_begun: AtomicUsize::new(0),
        calls_done: AtomicUsize::new(0),
        drained: AtomicUsize::new(0),
        delays: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        dead: AtomicBool::new(false),
    };
    let log = Arc::new(Mutex::new(Vec::new()));
    let done = Arc::new(AtomicUsize::new(0));
    let inside = Arc::new(AtomicBool::new(false));
    let id = Id::generate();
    let mut dp = DspParameters::empty();
    let mut params = Vec::new();
    for n in NAMES {
        let (p, rt) = AudioParameter::new(id, n, ParameterRange::new(0.0, -1.0, 1e7), e.ctx.as_ref());
        dp = dp.with_parameter(rt);
        params.push(p);
    }
    let watcher = GraphNode::new(
        id,
        e.ctx.as_ref(),
        3,
        1,
        Box::new(Watcher {
            log: log.clone(),
            done: done.clone(),
            inside: inside.clone(),
            rng: c.rng.fork(),
            lazy,
        }),
        dp,
    );
    watcher.connect_to_output();
    let one = dc(e.ctx.as_ref(), 1.0);
    let mut adsr = Adsr::new(e.ctx.as_ref(), 1, sr);
    adsr.set_adsr(Duration::ZERO, Duration::ZERO, Level::from_linear(1.0), Duration::ZERO);
    let mut mixer = Mixer::new(e.ctx.as_ref(), 1, 1);
    one.connect_to(&adsr.node);
    one.connect_to(&mixer.node);
    adsr.node.connect_channels_to(&watcher, 0, 1, 1);
    mixer.node.connect_channels_to(&watcher, 0, 2, 1);
    let hub = Gain::new(e.ctx.as_ref(), 1);
    hub.node.connect_to_input();
    let rec = Recorder::new(e.ctx.as_mut(), 1, sr);
    let meter = Envelope::new(e.ctx.as_mut(), 1, Duration::ZERO, Duration::ZERO, sr as f64 / interval as f64);
    hub.node.connect_to(&rec.borrow().node);
    hub.node.connect_to(&meter.borrow().node);
    let mut sources: Vec<Option<GraphNode>> = (0..SOURCES).map(|_| None).collect();
    let mut connected = [false; SOURCES];
    // everything so far is in effect from the first call on
    let mut cmds: Vec<Cmd> = Vec::new();
    let mut r = c.rng.fork();
    let mut ra = c.rng.fork();
    let index = c.index;
    // delays at the channel operations themselves, on either side
    let rates = [0, 0, 5, 50, 300];
    let (jitter, jitter_control) = (*c.rng.pick(&rates), *c.rng.pick(&rates));
    let (seed, seed_control) = (c.rng.u64(), c.rng.u64());
    c.note(format!("channel delays {jitter} {jitter_control}"));
    let Eng { mut proc, mut ctx, .. } = e;

    let mut now_on = false;
    let mut counter = 1u32; // values
    let mut clock: Vec<(usize, f64, usize, bool)> = Vec::new();
    let mut bad: Res = Ok(());
    let mut readings: Vec<f32> = Vec::new();
    let mut foreign_channel = false;
    // recordings: (calls done before start issued, calls begun after start returned) .. and the same for stop, frames
    let mut recordings: Vec<([usize; 4], Vec<f32>)> = Vec::new();
    let mut current: Option<([usize; 4], Vec<f32>)> = None;
    let mut stopping: Option<usize> = None;
    let mut sent = [0usize; 3];
    let mut floods = 0;
    let (mut seen_on, mut by_flag) = (false, 0);

    let result: Result<Vec<Call>, Violation> = std::thread::scope(|sc| {
        let sh = &shared;
        let done2 = done.clone();
        let log2 = log.clone();
        let end = End(&shared.stop);
        let audio = std::thread::Builder::new()
            .spawn_scoped(sc, move || {
                let _dead = End(&sh.dead);
                monitor::set_case(index);
                let mut calls = Vec::new();
                let mut first = 1usize;
                let mut last = false;
                let room = (60 * interval).saturating_sub(2 * biggest).max(interval);
                let r = guarded(|| loop {
                    let stop = sh.stop.load(SeqCst);
                    if stop {
                        if last || first > 15_000_000 {
                            break;
                        }
                        last = true;
                    }
                    // do not outrun the collection of notifications
                    if !stop && sh.rendered.load(SeqCst) - sh.drained.load(SeqCst) > room {
                        std::thread::yield_now();
                        continue;
                    }
                    delay(&mut ra, lazy_audio);
                    let n = if ra.chance(0.3) { biggest } else { ra.range(1, biggest) };
                    let mut ib = OwnedAudioBuffer::new(n, 1, sr);
                    for i in 0..n {
                        ib.set_sample(SampleLocation::new(0, i), (first + i) as f32);
                    }
                    let mut ob = OwnedAudioBuffer::new(n, 1, sr);
                    ob.fill_with_value(DIRT);
                    let mut spans = [Span::default(); 3];
                    sh.calls_begun.fetch_add(1, SeqCst);
                    for k in 0..3 {
                        spans[k].lo = sh.streams[k].returned.load(SeqCst);
                    }
                    perturb::enable(seed ^ first as u64, jitter);
                    monitor::audio(false, || proc.process(&ib, &mut ob));
                    perturb::disable();
                    for k in 0..3 {
                        spans[k].hi = sh.streams[k].issued.load(SeqCst);
                    }
                    sh.calls_done.fetch_add(1, SeqCst);
                    sh.rendered.store(done2.load(SeqCst), SeqCst);
                    let parts: Vec<Part> = std::mem::take(&mut *log2.lock().unwrap());
                    let mut out_wrong = None;
                    let mut pos = 0;
                    if parts.is_empty() {
                        if let Some(i) = (0..n).find(|i| ob.get_sample(SampleLocation::new(0, *i)) != 0.0) {
                            out_wrong = Some(format!("nothing was rendered, but frame {i} is {}", ob.get_sample(SampleLocation::new(0, i))));
                        }
                    }
                    for p in &parts {
                        for _ in 0..p.frames.min(n - pos) {
                            let v = ob.get_sample(SampleLocation::new(0, pos));
                            if v != p.bits {
                                out_wrong = Some(format!("frame {pos} of the output is {v}, its node's was {}", p.bits));
                            }
                            pos += 1;
                        }
                    }
                    let skipped = parts.is_empty();
                    calls.push(Call {
                        spans,
                        frames: n,
                        first,
                        parts,
                        out_wrong,
                    });
                    if skipped {
                        std::thread::yield_now();
                    } else {
                        first += n;
                    }
                });
                drop(proc);
                sh.delays.store(perturb::count() as usize, SeqCst);
                r.map(|_| calls)
            })
            .unwrap();

        // the control thread
        struct Calm;
        impl Drop for Calm {
            fn drop(&mut self) {
                perturb::disable();
            }
        }
        let _calm = Calm;
        perturb::enable(seed_control, jitter_control);
        let send = |k: usize, sent: &mut [usize; 3], f: &mut dyn FnMut()| {
            shared.streams[k].issued.fetch_add(1, SeqCst);
            f();
            shared.streams[k].returned.fetch_add(1, SeqCst);
            sent[k] += 1;
        };
        let mut budget = ops;
        let mut in_flood = 0;
        while budget > 0 || in_flood > 0 {
            if shared.dead.load(SeqCst) {
                break;
            }
            if in_flood > 0 {
                in_flood -= 1;
            } else {
                budget -= 1;
                delay(&mut r, lazy_control);
                if flood && r.chance(0.004) {
                    in_flood = r.range(100, 6000);
                    floods += 1;
                }
            }
            let op = if in_flood > 0 { *r.pick(&[0, 0, 2, 2, 2, 2, 3, 4, 5]) } else { r.below(14) };
            match op {
                0 | 1 => {
                    let i = r.below(SOURCES);
                    match sources[i].take() {
                        None => {
                            send(COMMANDS, &mut sent, &mut || sources[i] = Some(dc(ctx.as_ref(), (1u32 << i) as f32)));
                            cmds.push(Cmd::Nothing);
                        }
                        Some(n) if r.chance(0.2) => {
                            cmds.push(Cmd::Disconnect(i));
                            connected[i] = false;
                            let mut n = Some(n);
                            send(COMMANDS, &mut sent, &mut || drop(n.take()));
                        }
                        Some(n) => {
                            if connected[i] {
                                cmds.push(Cmd::Disconnect(i));
                                send(COMMANDS, &mut sent, &mut || n.disconnect_from_node(&watcher));
                            } else {
                                cmds.push(Cmd::Connect(i));
                                send(COMMANDS, &mut sent, &mut || n.connect_channels_to(&watcher, 0, 0, 1));
                            }
                            connected[i] = !connected[i];
                            sources[i] = Some(n);
                        }
                    }
                }
                2 => {
                    let k = r.below(PARAMS);
                    counter += 1;
                    let v = (counter % 8_000_000) as f32;
                    cmds.push(Cmd::Set(k, v));
                    send(COMMANDS, &mut sent, &mut || params[k].set_value_now(v as f64));
                }
                3 => {
                    // notes alternate
                    let on = sent[NOTES] % 2 == 0;
                    send(NOTES, &mut sent, &mut || {
                        if on {
                            adsr.note_on_at_time(Timestamp::zero())
                        } else {
                            adsr.note_off_at_time(Timestamp::zero())
                        }
                    });
                }
                4 | 5 => {
                    let v = (sent[LEVELS] + 1) as f64;
                    send(LEVELS, &mut sent, &mut || mixer.set_level(0, 0, Level::from_linear(v)));
                }
                6 if stops || !now_on => {
                    if !now_on || r.chance(0.2) {
                        now_on = !now_on;
                        cmds.push(if now_on { Cmd::Start } else { Cmd::Stop });
                        send(COMMANDS, &mut sent, &mut || if now_on { ctx.start() } else { ctx.stop() });
                    }
                }
                7 | 8 | 6 => {
                    for _ in 0..if r.chance(0.1) { 200 } else { r.range(1, 4) } {
                        let lo = shared.rendered.load(SeqCst);
                        let t = ctx.current_time();
                        let was = inside.load(SeqCst);
                        let hi = done.load(SeqCst);
                        clock.push((lo, t.as_samples(sr), hi, was));
                        if r.chance(0.1) {
                            std::thread::yield_now();
                        }
                    }
                }
                9 | 10 => {
                    let upto = shared.rendered.load(SeqCst);
                    ctx.process_notifications();
                    for n in meter.borrow_mut().take_notifications() {
                        foreign_channel |= n.channel_index() != 0;
                        readings.push(n.peak_level());
                    }
                    // a recorder that was recording and says that it is not any more has delivered it all
                    let on = rec.borrow().is_recording();
                    if on && current.is_some() {
                        seen_on = true;
                    } else if !on && seen_on && stopping.is_some() {
                        let mut cur = current.take().unwrap();
                        if let Some(b) = rec.borrow_mut().take_recording() {
                            cur.1.extend_from_slice(&b.get_channel_data(SampleLocation::channel(0))[..b.frame_count()]);
                        }
                        recordings.push(cur);
                        stopping = None;
                        seen_on = false;
                        by_flag += 1;
                    }
                    if let Some(cur) = &mut current {
                        if stopping.is_none() || r.chance(0.5) {
                            if let Some(b) = rec.borrow_mut().take_recording() {
                                cur.1.extend_from_slice(&b.get_channel_data(SampleLocation::channel(0))[..b.frame_count()]);
                            }
                        }
                    }
                    shared.drained.store(upto, SeqCst);
                }
                11 => match (&mut current, stopping) {
                    (None, _) => {
                        let a = shared.calls_done.load(SeqCst);
                        rec.borrow_mut().record_now();
                        let b = shared.calls_begun.load(SeqCst);
                        current = Some(([a, b, 0, 0], Vec::new()));
                    }
                    (Some(cur), None) => {
                        cur.0[2] = shared.calls_done.load(SeqCst);
                        rec.borrow_mut().stop_record_now();
                        cur.0[3] = shared.calls_begun.load(SeqCst);
                        stopping = Some(shared.rendered.load(SeqCst));
                    }
                    (Some(_), Some(_)) => {}
                },
                12 => {
                    if stopping.map(|at| shared.rendered.load(SeqCst) > at + 2 * biggest) == Some(true) {
                        // a whole call was rendered since
                        let upto = shared.rendered.load(SeqCst);
                        ctx.process_notifications();
                        shared.drained.store(upto, SeqCst);
                        for n in meter.borrow_mut().take_notifications() {
                            foreign_channel |= n.channel_index() != 0;
                            readings.push(n.peak_level());
                        }
                        let mut cur = current.take().unwrap();
                        if let Some(b) = rec.borrow_mut().take_recording() {
                            cur.1.extend_from_slice(&b.get_channel_data(SampleLocation::channel(0))[..b.frame_count()]);
                        }
                        if rec.borrow().is_recording() {
                            bad = fail("recording", "the recorder says it is recording when the stop has been processed".into());
                        }
                        recordings.push(cur);
                        stopping = None;
                        seen_on = false;
                    }
                }
                _ => {
                    let k = r.below(PARAMS);
                    let v = params[k].get_value().load(SeqCst);
                    if v > counter as f64 {
                        bad = fail("value", format!("parameter {k} reads {v}, {counter} has not been set yet"));
                    }
                }
            }
        }
        // settle: running, everything collected
        if !now_on {
            cmds.push(Cmd::Start);
            send(COMMANDS, &mut sent, &mut || ctx.start());
        }
        if let (Some(cur), None) = (&mut current, stopping) {
            cur.0[2] = shared.calls_done.load(SeqCst);
            rec.borrow_mut().stop_record_now();
            cur.0[3] = shared.calls_begun.load(SeqCst);
        }
        let goal = shared.calls_begun.load(SeqCst) + 3;
        while shared.calls_done.load(SeqCst) < goal && !shared.dead.load(SeqCst) {
            let upto = shared.rendered.load(SeqCst);
            ctx.process_notifications();
            shared.drained.store(upto, SeqCst);
            std::thread::yield_now();
        }
        drop(end);
        audio.join().unwrap_or_else(|_| fail("HARNESS", "audio thread".into()))
    });
    let calls = result?;
    bad?;
    c.count("channel_delays", shared.delays.load(SeqCst));
    ctx.process_notifications();
    for n in meter.borrow_mut().take_notifications() {
        foreign_channel |= n.channel_index() != 0;
        readings.push(n.peak_level());
    }
    if let Some(mut cur) = current.take() {
        if let Some(b) = rec.borrow_mut().take_recording() {
            cur.1.extend_from_slice(&b.get_channel_data(SampleLocation::channel(0))[..b.frame_count()]);
        }
        recordings.push(cur);
    }
    if foreign_channel {
        return fail("notifications", "a notification names a channel the meter does not have".into());
    }
    c.count("commands", cmds.len());
    c.count("notes", sent[NOTES]);
    c.count("levels", sent[LEVELS]);
    c.count("floods", floods);
    c.count("recordings_ended_by_flag", by_flag);
    c.count("clock_reads", clock.len());

    // ---- every call reflects a prefix
    let mut cut = 0usize;
    let mut st = State::default();
    let mut marks = [0usize; 3];
    let mut raced = 0;
    // rendered frames by number, and where each call's begin
    let mut frames: Vec<usize> = Vec::new();
    let mut starts: VecDeque<(usize, usize)> = VecDeque::new();
    for (j, call) in calls.iter().enumerate() {
        if let Some(w) = &call.out_wrong {
            return fail("output", format!("call {j}: {w}"));
        }
        starts.push_back((j, frames.len()));
        let s = call.spans[COMMANDS];
        if s.hi > s.lo {
            raced += 1;
        }
        while cut < s.lo {
            st.apply(cmds[cut]);
            cut += 1;
        }
        if call.parts.is_empty() {
            c.count("stopped_calls", 1);
            while st.on && cut < s.hi {
                st.apply(cmds[cut]);
                cut += 1;
            }
            if st.on {
                return fail("lost", format!("call {j} rendered nothing, but commands {}..={} (of {}) leave the engine started", s.lo, s.hi, cmds.len()));
            }
            continue;
        }
        let total: usize = call.parts.iter().map(|p| p.frames).sum();
        if total != call.frames {
            return fail("frames", format!("call {j} of {} frames rendered {total}", call.frames));
        }
        frames.extend(call.first..call.first + call.frames);
        for p in &call.parts {
            if let Some(t) = &p.torn {
                return fail("torn", format!("call {j}: {t}"));
            }
            let from = cut;
            let ok = |st: &State| st.on && st.bits as f32 == p.bits && (0..PARAMS).all(|k| st.params[k] == p.params[k]);
            while !ok(&st) && cut < s.hi {
                st.apply(cmds[cut]);
                cut += 1;
            }
            if !ok(&st) {
                return fail(
                    "prefix",
                    format!(
                        "call {j} began after {} commands had been issued and ended before number {}; it shows sources {:#x} and parameters {:?}, which is the state after none of the first {from}..={} commands (after these: {:#x} {:?}, started {})",
                        s.lo, s.hi, p.bits as u32, p.params, s.hi, st.bits, st.params, st.on
                    ),
                );
            }
            if cut > s.lo && cut < s.hi {
                c.count("inner_cuts", 1);
            }
            // notes and levels
            let l = call.spans[LEVELS];
            marks[LEVELS] = marks[LEVELS].max(l.lo);
            let v = p.level.round() as usize;
            if (p.level as f64 - v as f64).abs() > 1e-5 * v as f64 || v < marks[LEVELS] || v > l.hi {
                return fail("levels", format!("call {j} uses level {} when the last set were {}..={}", p.level, marks[LEVELS], l.hi));
            }
            marks[LEVELS] = v;
            let l = call.spans[NOTES];
            marks[NOTES] = marks[NOTES].max(l.lo);
            if p.frames >= 4 {
                if p.note != 0.0 && p.note != 1.0 {
                    return fail("notes", format!("call {j}: the envelope is {} with no durations", p.note));
                }
                if marks[NOTES] % 2 != p.note as usize {
                    marks[NOTES] += 1;
                }
                if marks[NOTES] > l.hi {
                    return fail("notes", format!("call {j}: the envelope is {} after notes {}..={}", p.note, l.lo, l.hi));
                }
            }
        }
    }
    if cut < cmds.len() {
        return fail("HARNESS", "commands left".into());
    }
    c.count("raced_calls", raced);
    // ---- clock
    let mut last = 0.0;
    for (lo, t, hi, during) in &clock {
        if *t < last {
            return fail("clock", format!("the time went from {last} to {t} frames"));
        }
        last = *t;
        if *t < *lo as f64 - 0.01 || *t > *hi as f64 + 0.01 {
            return fail("clock", format!("the time reads {t} frames when between {lo} and {hi} had been rendered"));
        }
        if *during {
            c.count("clock_reads_during_calls", 1);
        }
    }
    // ---- notifications: one per interval, complete, in order
    let mut before = 0usize;
    for (k, v) in readings.iter().enumerate() {
        let f = *v as usize;
        let Ok(pos) = frames.binary_search(&f) else {
            return fail("notifications", format!("reading {k} is {v}, which is no rendered frame"));
        };
        let d = pos + 1 - before;
        if (k > 0 && (d + 2 < interval || d > interval + 2)) || d > interval + 2 {
            return fail("notifications", format!("readings {k} and the one before are {d} frames apart instead of {interval}"));
        }
        before = pos + 1;
    }
    if frames.len() > before + interval + 2 {
        return fail("notifications", format!("no reading after frame {before}, {} were rendered", frames.len()));
    }
    c.count("notifications", readings.len());
    // ---- recordings
    for (span, got) in &recordings {
        let at = |call: usize| starts.iter().find(|s| s.0 >= call).map(|s| s.1).unwrap_or(frames.len());
        // the first call that may have seen a request is the one being made when it was issued
        let (a_lo, a_hi) = (at(span[0]), at(span[1]));
        let (b_lo, b_hi) = (at(span[2]), at(span[3]));
        c.count("frames_recorded", got.len());
        c.count("recordings", 1);
        if got.is_empty() {
            if b_lo > a_hi {
                return fail("recording", format!("nothing recorded from frames {a_lo}..={a_hi} to {b_lo}..={b_hi}"));
            }
            continue;
        }
        let Ok(a) = frames.binary_search(&(got[0] as usize)) else {
            return fail("recording", format!("recorded {}, which is no rendered frame", got[0]));
        };
        for (i, v) in got.iter().enumerate() {
            if frames.get(a + i).map(|f| *f as f32) != Some(*v) {
                return fail("recording", format!("frame {i} of the recording is {v} instead of {:?}", frames.get(a + i)));
            }
        }
        let b = a + got.len();
        if a < a_lo || a > a_hi || b < b_lo || b > b_hi {
            return fail("recording", format!("recorded frames {a}..{b}, but the requests were made at {a_lo}..={a_hi} and {b_lo}..={b_hi}"));
        }
    }
    c.nontrivial = raced > 0;
    Ok(())
}
