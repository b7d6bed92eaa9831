//! C22: whatever is dropped is released, exactly once.
use crate::core::*;
use crate::eng::*;
use crate::monitor::{LIVE, TRACK};
use crate::probe::*;
use crate::program::*;
use rawdio::prelude::*;
use rawdio::*;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "several engines at once, each going through thousands of creations, connections, disconnections and drops of every node type (rendered, never rendered, dropped one by one or hundreds at once, with notifications collected) beside a chain that must go on sounding, then the same again, then dropped in every order of context, process and nodes with commands left; processors count their destructions, and the live heap and the threads of the process are compared before, between and after; chains outliving 300000 creations and connections; non-trivial = every case",
        quick_cases: 10,
        thorough_cases: 120,
        parallel: false,
        assumptions: &["at most 512 nodes at a time", "the collector is given 10 s"],
        required: &["dropped_while_stopped", "lifetimes", "nodes_dropped", "probes_destroyed", "connections", "never_rendered", "meters_and_recorders", "mass_drops", "orders", "left_in_queue", "heap_comparisons", "thread_comparisons", "drops_while_rendering", "uncollected"],
        case,
    }
}

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

struct World {
    e: Eng,
    hub: Option<Gain>,
    tail: Option<Mixer>,
    graves: Vec<Arc<Grave>>,
    bad: Res,
    n: [usize; 8],
    stopped: bool,
}

const DROPPED: usize = 0;
const EDGES: usize = 1;
const UNRENDERED: usize = 2;
const LISTENERS: usize = 3;
const MASS: usize = 4;
const CONCURRENT: usize = 5;
const STOPPED: usize = 6;

fn spec(r: &mut Rng, listeners: bool) -> Spec {
    if listeners {
        return if r.chance(0.8) { Spec::Meter(r.range(1, 2), 0.0, 0.01, 500.0) } else { Spec::Recorder(1) };
    }
    match r.below(10) {
        0 => Spec::Gain(r.range(1, 4)),
        1 => Spec::Pan,
        2 => Spec::Osc(440.0, 2, r.range(3, 40)),
        3 => Spec::Sampler(2, r.range(1, 200), 3),
        4 => Spec::Mixer(r.range(1, 4), r.range(1, 4), 0),
        5 => Spec::Biquad(2, r.below(6)),
        6 => Spec::Compressor(2),
        7 => Spec::Adsr(2),
        8 => Spec::Conv(1, r.range(1, 100), 1),
        _ => Spec::Shaper(2, 0, 0.0),
    }
}

impl World {
    fn new(r: &mut Rng) -> World {
        let maxf = *r.pick(&[16, 32, 64]);
        let e = Eng::new(48_000, 4, maxf);
        World {
            e,
            hub: None,
            tail: None,
            graves: vec![],
            bad: Ok(()),
            n: [0; 8],
            stopped: false,
        }
    }
    fn begin(&mut self) {
        let mut hub = Gain::new(self.e.ctx.as_ref(), 1);
        hub.gain().set_value_now(0.5);
        hub.node.connect_to_input();
        let mut tail = Mixer::new(self.e.ctx.as_ref(), 4, 1);
        tail.set_level(0, 0, Level::from_linear(1.0));
        hub.node.connect_to(&tail.node);
        tail.node.connect_to_output();
        self.hub = Some(hub);
        self.tail = Some(tail);
        self.e.ctx.start();
    }
    fn render(&mut self) {
        let n = self.e.maxf;
        let mut out = new_sig(1);
        self.e.pos = 0;
        self.e.block(&constant(1, n, 1.0), &mut out, n);
        if self.bad.is_ok() {
            let want = if self.stopped { 0.0 } else { 0.5 };
            if let Some(i) = out[0].iter().position(|v| *v != want) {
                self.bad = fail("chain", format!("after {} nodes, the remaining chain gives {} instead of {want}", self.n[DROPPED], out[0][i]));
            }
        }
    }
    /// one round of creating and dropping
    fn round(&mut self, r: &mut Rng, style: usize, count: usize) {
        let mut nodes: Vec<GraphNode> = vec![];
        let mut real: Vec<Live> = vec![];
        if std::mem::take(&mut self.stopped) {
            self.e.ctx.start();
        }
        for _ in 0..count {
            if style != 3 && r.chance(0.6) {
                let (n, g) = mortal(self.e.ctx.as_ref(), 1, r.below(300));
                self.graves.push(g);
                if style != 5 {
                    if r.chance(0.7) {
                        self.hub.as_ref().unwrap().node.connect_to(&n);
                        self.n[EDGES] += 1;
                    }
                    if r.chance(0.5) {
                        // heard by nobody: its level is zero
                        n.connect_channels_to(&self.tail.as_ref().unwrap().node, 0, r.range(1, 3), 1);
                        self.n[EDGES] += 1;
                    }
                    if let (Some(l), true) = (nodes.last(), r.chance(0.3)) {
                        l.connect_to(&n);
                        self.n[EDGES] += 1;
                        if r.chance(0.5) {
                            l.disconnect_from_node(&n);
                        }
                    }
                }
                nodes.push(n);
            } else {
                let s = spec(r, style == 3);
                let l = Live::new(&s, &mut self.e);
                if style == 3 {
                    self.n[LISTENERS] += 1;
                    if let Live::Recorder(x) = &l {
                        x.borrow_mut().record_now();
                    }
                }
                if r.chance(0.5) {
                    l.with(|n| self.hub.as_ref().unwrap().node.connect_channels_to(n, 0, 0, 1.min(s.io().0)));
                    self.n[EDGES] += 1;
                }
                real.push(l);
            }
            if r.chance(0.02) && style != 2 {
                self.render();
            }
        }
        if style == 2 {
            // nothing of this is ever rendered
            self.n[UNRENDERED] += nodes.len() + real.len();
        } else {
            self.render();
            if r.chance(0.3) {
                self.render();
            }
        }
        if style == 3 {
            self.e.ctx.process_notifications();
            for l in &real {
                match l {
                    Live::Meter(m) if r.chance(0.5) => drop(m.borrow_mut().take_notifications()),
                    Live::Recorder(m) if r.chance(0.5) => drop(m.borrow_mut().take_recording()),
                    _ => {}
                }
            }
        }
        if r.chance(0.3) {
            // what is dropped now is not waited for by any rendering
            self.e.ctx.stop();
            self.stopped = true;
            self.n[STOPPED] += nodes.len() + real.len();
        }
        self.n[DROPPED] += nodes.len() + real.len();
        if nodes.len() > 100 {
            self.n[MASS] += 1;
        }
        let slow = r.chance(0.3);
        r.shuffle(&mut nodes);
        while let Some(n) = nodes.pop() {
            drop(n);
            if slow && r.chance(0.1) && style != 2 {
                self.render();
            }
        }
        drop(real);
        if style == 3 && r.chance(0.5) {
            self.e.ctx.process_notifications();
        }
        if r.chance(0.5) {
            self.render();
        }
    }
    /// connections only
    fn rewire(&mut self, r: &mut Rng, nodes: &[GraphNode]) {
        for _ in 0..40 {
            let a = r.below(nodes.len());
            let b = r.below(nodes.len());
            if a < b {
                nodes[a].connect_to(&nodes[b]);
                self.n[EDGES] += 1;
                if r.chance(0.1) {
                    self.render();
                }
                nodes[a].disconnect_from_node(&nodes[b]);
            }
        }
        self.render();
    }
    fn phase(&mut self, r: &mut Rng, style: usize, wired: &[GraphNode], size: usize) {
        if style == 4 {
            for _ in 0..size / 20 {
                self.round(r, 0, 200);
                self.render();
            }
            return;
        }
        // the largest round comes first, so that nothing has to grow later
        self.round(r, style, 40);
        for _ in 0..size {
            let k = r.range(1, 20);
            self.round(r, style, k);
            if !wired.is_empty() {
                self.rewire(r, wired);
            }
        }
        if style == 5 {
            self.concurrent(r, size * 10);
        }
        self.e.ctx.process_notifications();
        self.render();
        self.e.ctx.process_notifications();
    }
    /// dropped while the audio thread works
    fn concurrent(&mut self, r: &mut Rng, count: usize) {
        let (ctx, proc) = (&self.e.ctx, &mut self.e.proc);
        let sr = self.e.sr;
        let maxf = self.e.maxf;
        let stop = std::sync::atomic::AtomicBool::new(false);
        let graves = &mut self.graves;
        let res = std::thread::scope(|sc| {
            let stop = &stop;
            let h = sc.spawn(move || {
                guarded(|| {
                    let ib = OwnedAudioBuffer::new(maxf, 1, sr);
                    let mut ob = OwnedAudioBuffer::new(maxf, 1, sr);
                    while !stop.load(SeqCst) {
                        crate::monitor::audio(false, || proc.process(&ib, &mut ob));
                        std::thread::yield_now();
                    }
                })
            });
            let mut alive = std::collections::VecDeque::new();
            for _ in 0..count {
                let (n, g) = mortal(ctx.as_ref(), 1, r.below(100));
                graves.push(g);
                alive.push_back(n);
                if alive.len() > 30 {
                    alive.pop_front();
                }
                if r.chance(0.02) {
                    // let the other side take part
                    std::thread::sleep(Duration::from_micros(100));
                }
            }
            drop(alive);
            std::thread::sleep(Duration::from_millis(1));
            stop.store(true, SeqCst);
            h.join().unwrap_or_else(|_| fail("HARNESS", "audio thread".into()))
        });
        if self.bad.is_ok() {
            self.bad = res;
        }
        self.n[CONCURRENT] += count;
        self.n[DROPPED] += count;
    }
}

fn wait(limit: u64, f: impl Fn() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < Duration::from_millis(limit) {
        if f() {
            return true;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    f()
}

const SLACK: i64 = 32 * 1024;

fn case(c: &mut Case) -> Res {
    if !TRACK.swap(true, SeqCst) {
        // counting begins here; whatever is freed from before only lowers it
        std::thread::sleep(Duration::from_millis(100));
    }
    let engines = 8;
    let size = if c.thorough() { 200 } else { 60 };
    let base_threads = threads();
    // the records of what is dropped are the harness's own
    let own = std::mem::size_of::<Grave>() as i64 + 16;
    let base_live = LIVE.load(SeqCst);
    let first = c.index as usize;
    c.note(format!("{engines} engines, {size} rounds, seed {}", c.rng.clone().u64()));
    let seeds: Vec<Rng> = (0..engines).map(|_| c.rng.fork()).collect();
    // 4 points where the engines stand still: they wait, the main thread looks, they go on
    let barrier = Arc::new(Barrier::new(engines + 1));
    let graves = Arc::new(std::sync::Mutex::new(Vec::<Arc<Grave>>::with_capacity(1 << 20)));
    let living = Arc::new(std::sync::Mutex::new(Vec::<Arc<Grave>>::new()));
    let mut result: Res = Ok(());
    let mut handles = vec![];
    for (k, r) in seeds.into_iter().enumerate() {
        let (barrier, graves, living) = (barrier.clone(), graves.clone(), living.clone());
        handles.push(std::thread::spawn(move || {
            let mut r = r;
            let style = (k + first) % 6;
            let order = (k + first * 3) % 12;
            let mut world = None;
            let mut kept: Vec<GraphNode> = vec![];
            let mut wired: Vec<GraphNode> = vec![];
            let mut bad: Res = Ok(());
            let mut n = [0usize; 8];
            for phase in 0..3 {
                let step = guarded(|| {
                    if phase == 0 {
                        let mut w = World::new(&mut r);
                        w.begin();
                        for _ in 0..r.below(20) {
                            let (x, g) = mortal(w.e.ctx.as_ref(), 1, 100);
                            living.lock().unwrap().push(g);
                            kept.push(x);
                        }
                        if style == 1 {
                            for _ in 0..12 {
                                let (x, g) = mortal(w.e.ctx.as_ref(), 1, 0);
                                living.lock().unwrap().push(g);
                                wired.push(x);
                            }
                        }
                        world = Some(w);
                    }
                    if phase < 2 {
                        if let Some(w) = world.as_mut() {
                            w.phase(&mut r, style, &wired, size);
                            graves.lock().unwrap().append(&mut w.graves);
                            w.graves = vec![];
                        }
                    } else if let Some(mut w) = world.take() {
                        // left in the queue
                        for _ in 0..10 {
                            let (x, g) = mortal(w.e.ctx.as_ref(), 1, 1000);
                            living.lock().unwrap().push(g);
                            kept.push(x);
                        }
                        let (hub, tail) = (w.hub.take(), w.tail.take());
                        if order >= 6 {
                            kept.drain(..5);
                        }
                        n = w.n;
                        if bad.is_ok() {
                            bad = std::mem::replace(&mut w.bad, Ok(()));
                        }
                        let Eng { ctx, mut proc, maxf, sr, .. } = w.e;
                        let mut nodes = Some((std::mem::take(&mut kept), std::mem::take(&mut wired), hub, tail));
                        let (mut ctx, mut go) = (Some(ctx), true);
                        let mut proc = {
                            if order % 2 == 0 && order >= 6 {
                                let mut ob = OwnedAudioBuffer::new(maxf, 1, sr);
                                proc.process(&OwnedAudioBuffer::new(maxf, 1, sr), &mut ob);
                            }
                            Some(proc)
                        };
                        let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order % 6];
                        for what in perm {
                            match what {
                                0 => drop(ctx.take()),
                                1 => {
                                    if let Some(p) = proc.take() {
                                        if order % 3 == 0 {
                                            let _ = std::thread::spawn(move || drop(p)).join();
                                        } else {
                                            drop(p)
                                        }
                                    }
                                }
                                _ => drop(nodes.take()),
                            }
                            // whoever is left goes on
                            if let (Some(p), true) = (proc.as_mut(), go) {
                                let mut ob = OwnedAudioBuffer::new(maxf, 1, sr);
                                crate::monitor::audio(false, || p.process(&OwnedAudioBuffer::new(maxf, 1, sr), &mut ob));
                                go = r.chance(0.5);
                            }
                            if let Some(c) = ctx.as_mut() {
                                c.process_notifications();
                                let _ = c.current_time();
                            }
                        }
                    }
                });
                if bad.is_ok() {
                    bad = step;
                }
                barrier.wait();
                barrier.wait();
            }
            (bad, n)
        }));
    }
    let all = |v: &std::sync::Mutex<Vec<Arc<Grave>>>| v.lock().unwrap().iter().all(|g| g.dropped.load(SeqCst) > 0);
    let mut before = 0;
    let mut known = 0;
    for phase in 0..3 {
        barrier.wait();
        wait(10_000, || all(&graves));
        if phase < 2 {
            if living.lock().unwrap().iter().any(|g| g.dropped.load(SeqCst) > 0) && result.is_ok() {
                result = fail("early", "a processor was destroyed while its node existed".into());
            }
            if phase == 1 {
                wait(10_000, || LIVE.load(SeqCst) - before <= SLACK + own * (graves.lock().unwrap().len() - known) as i64);
            } else {
                // everything has been dealt with when nothing changes any more
                let (mut last, mut since) = (LIVE.load(SeqCst), Instant::now());
                let t = Instant::now();
                while since.elapsed() < Duration::from_millis(1300) && t.elapsed() < Duration::from_secs(10) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = LIVE.load(SeqCst);
                    if now != last {
                        (last, since) = (now, Instant::now());
                    }
                }
            }
            let live = LIVE.load(SeqCst);
            if phase == 1 {
                c.count("heap_comparisons", 1);
                let own = own * (graves.lock().unwrap().len() - known) as i64;
                if live - before > SLACK + own && result.is_ok() {
                    result = fail("growth", format!("the same work again left {} more bytes in use", live - before - own));
                }
            }
            before = live;
            known = graves.lock().unwrap().len();
        } else {
            wait(10_000, || all(&living) && all(&graves));
        }
        let (g, l) = (graves.lock().unwrap(), living.lock().unwrap());
        let mut wrong: Vec<u32> = g.iter().map(|g| g.dropped.load(SeqCst)).filter(|n| *n != 1).collect();
        if phase == 2 {
            wrong.extend(l.iter().map(|g| g.dropped.load(SeqCst)).filter(|n| *n != 1));
        }
        if !wrong.is_empty() && result.is_ok() {
            let what = if phase == 2 { "after everything was dropped" } else { "while the engines go on" };
            result = fail("destroyed", format!("{what}, {} processors of dropped nodes were destroyed {} times", wrong.len(), wrong[0]));
        }
        drop((g, l));
        if phase == 0 && c.index == 0 {
            // nobody drops anything for a while
            std::thread::sleep(Duration::from_secs(8));
            c.count("idle_seconds", 8);
        }
        barrier.wait();
    }
    for (k, h) in handles.into_iter().enumerate() {
        match h.join() {
            Ok((bad, n)) => {
                if result.is_ok() {
                    result = bad;
                }
                c.count("nodes_dropped", n[DROPPED]);
                c.count("connections", n[EDGES]);
                c.count("never_rendered", n[UNRENDERED]);
                c.count("meters_and_recorders", n[LISTENERS]);
                c.count("mass_drops", n[MASS]);
                c.count("drops_while_rendering", n[CONCURRENT]);
                c.count("dropped_while_stopped", n[STOPPED]);
                c.count("orders", 1);
                c.count("left_in_queue", 10);
                c.tag(format!("style {} order {}", (k + first) % 6, (k + first * 3) % 12));
            }
            Err(_) => return fail("HARNESS", "an engine's thread panicked".into()),
        }
    }
    c.count("probes_destroyed", graves.lock().unwrap().len() + living.lock().unwrap().len());
    result?;
    drop((graves, living));
    if !wait(10_000, || threads() <= base_threads) {
        return fail("threads", format!("{} threads before the engines, {} after they were dropped", base_threads, threads()));
    }
    c.count("thread_comparisons", 1);
    if !wait(5_000, || LIVE.load(SeqCst) - base_live <= SLACK) {
        return fail("left", format!("dropping the engines left {} bytes in use", LIVE.load(SeqCst) - base_live));
    }
    c.count("heap_comparisons", 1);
    if c.index % 2 == 0 {
        uncollected(c)?;
    }
    if c.index % 5 == 0 {
        crate::age::old_age(c, 300_000)?;
    }
    c.nontrivial = true;
    Ok(())
}

/// Meters and recorders go when they are dropped, whether or not anyone processes notifications.
fn uncollected(c: &mut Case) -> Res {
    let mut e = Eng::new(48_000, 4, 64);
    e.ctx.start();
    let mut out = new_sig(1);
    let input = constant(1, 64, 1.0);
    for recorders in [false, true] {
        let count = if recorders { 20 } else { 100 };
        e.pos = 0;
        out[0].clear();
        e.block(&input, &mut out, 64);
        let before = LIVE.load(SeqCst);
        for _ in 0..count {
            let spec = if recorders { Spec::Recorder(1) } else { Spec::Meter(c.rng.range(1, 2), 0.0, 0.01, 500.0) };
            let l = Live::new(&spec, &mut e);
            if c.rng.chance(0.5) {
                l.with(|n| n.connect_to_input());
            }
            if let (Live::Recorder(x), true) = (&l, c.rng.chance(0.5)) {
                x.borrow_mut().record_now();
            }
            e.pos = 0;
            out[0].clear();
            e.block(&input, &mut out, 64);
            drop(l);
            e.pos = 0;
            out[0].clear();
            e.block(&input, &mut out, 64);
        }
        // a notifier and the memory of a weak reference stay until they are next looked at
        let limit = SLACK + count * 1024;
        if !wait(10_000, || LIVE.load(SeqCst) - before <= limit) {
            return fail(
                "uncollected",
                format!("{count} dropped {} hold {} bytes while no notifications are processed", if recorders { "recorders" } else { "meters" }, LIVE.load(SeqCst) - before),
            );
        }
        e.ctx.process_notifications();
        if !wait(10_000, || LIVE.load(SeqCst) - before <= SLACK) {
            return fail("uncollected", format!("{} bytes stay after notifications were processed", LIVE.load(SeqCst) - before));
        }
        c.count("uncollected", count as usize);
    }
    Ok(())
}
