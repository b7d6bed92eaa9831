//! Processors of our own, put into the real graph through the guarded hook.
use rawdio::verif_hooks::*;
use rawdio::*;
use std::sync::{Arc, Mutex};

pub type Log = Arc<Mutex<Vec<Vec<f32>>>>;

/// Records every value its parameters take.
pub struct ParamProbe {
    pub names: Vec<&'static str>,
    pub log: Log,
}

impl DspProcessor for ParamProbe {
    fn process_audio(&mut self, c: &mut ProcessContext) {
        let n = c.output_buffer.frame_count();
        let mut log = self.log.lock().unwrap();
        for (k, name) in self.names.iter().enumerate() {
            log[k].extend_from_slice(c.parameters.get_parameter_values(name, n));
        }
    }
}

/// A node with parameters (name, default, min, max) and a log of their values.
pub fn param_node(
    ctx: &dyn Context,
    params: &[(&'static str, f64, f64, f64)],
) -> (GraphNode, Vec<AudioParameter>, Log) {
    let id = Id::generate();
    let mut dp = DspParameters::empty();
    let mut out = Vec::new();
    for (name, d, lo, hi) in params {
        let (p, rt) = AudioParameter::new(id, name, ParameterRange::new(*d, *lo, *hi), ctx);
        dp = dp.with_parameter(rt);
        out.push(p);
    }
    let log: Log = Arc::new(Mutex::new(vec![Vec::new(); params.len()]));
    let node = GraphNode::new(
        id,
        ctx,
        1,
        1,
        Box::new(ParamProbe {
            names: params.iter().map(|p| p.0).collect(),
            log: log.clone(),
        }),
        dp,
    );
    (node, out, log)
}

/// Signal of node `uid`, channel `ch` at its own `frame`: small integers, so
/// that sums are exact in any order.
pub fn tone(uid: u64, ch: usize, frame: usize) -> f32 {
    let mut x = uid
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add((ch as u64) << 40)
        .wrapping_add(frame as u64);
    ((crate::core::splitmix(&mut x) >> 20) & 1023) as f32 - 512.0
}

#[derive(Default)]
pub struct Seen {
    pub calls: usize,
    /// frames processed so far
    pub frames: usize,
    /// what was presented since the last look
    pub input: Vec<Vec<f32>>,
    pub output: Vec<Vec<f32>>,
    pub times: Vec<(usize, i64)>,
    pub dropped: usize,
}

pub struct RouteProbe {
    pub uid: u64,
    pub seen: Arc<Mutex<Seen>>,
    /// channels it does not write
    pub skip: u32,
    pub frames: usize,
}

impl Drop for RouteProbe {
    fn drop(&mut self) {
        self.seen.lock().unwrap().dropped += 1;
    }
}

impl DspProcessor for RouteProbe {
    fn process_audio(&mut self, c: &mut ProcessContext) {
        let mut s = self.seen.lock().unwrap();
        let n = c.output_buffer.frame_count();
        s.calls += 1;
        let ic = c.input_buffer.channel_count();
        let oc = c.output_buffer.channel_count();
        s.input.resize(ic, Vec::new());
        s.output.resize(oc, Vec::new());
        let ticks = (c.start_time.as_seconds() * 4294967296.0) as i64;
        let at = self.frames;
        s.times.push((at, ticks));
        for ch in 0..ic {
            for i in 0..n {
                let v = c.input_buffer.get_sample(SampleLocation::new(ch, i));
                s.input[ch].push(v);
            }
        }
        for ch in 0..oc {
            for i in 0..n {
                let v = if self.skip & (1 << ch) != 0 {
                    0.0
                } else {
                    let v = tone(self.uid, ch, self.frames + i);
                    c.output_buffer.set_sample(SampleLocation::new(ch, i), v);
                    v
                };
                s.output[ch].push(v);
            }
        }
        self.frames += n;
        s.frames += n;
    }
}

pub fn route_node(ctx: &dyn Context, uid: u64, ins: usize, outs: usize, skip: u32) -> (GraphNode, Arc<Mutex<Seen>>) {
    let seen = Arc::new(Mutex::new(Seen::default()));
    let node = GraphNode::new(
        Id::generate(),
        ctx,
        ins,
        outs,
        Box::new(RouteProbe {
            uid,
            seen: seen.clone(),
            skip,
            frames: 0,
        }),
        DspParameters::empty(),
    );
    (node, seen)
}

/// Where and how often a processor was destroyed.
#[derive(Default)]
pub struct Grave {
    pub dropped: std::sync::atomic::AtomicU32,
    pub in_audio: std::sync::atomic::AtomicU32,
}

/// Passes its input on and tells when it is destroyed.
pub struct Mortal {
    pub grave: Arc<Grave>,
    pub weight: Vec<u8>,
}

impl Drop for Mortal {
    fn drop(&mut self) {
        use std::sync::atomic::Ordering::SeqCst;
        if crate::monitor::in_audio() {
            self.grave.in_audio.fetch_add(1, SeqCst);
        }
        self.grave.dropped.fetch_add(1, SeqCst);
    }
}

impl DspProcessor for Mortal {
    fn process_audio(&mut self, c: &mut ProcessContext) {
        let (n, ch) = (c.output_buffer.frame_count(), c.output_buffer.channel_count());
        c.output_buffer
            .copy_from(c.input_buffer, SampleLocation::origin(), SampleLocation::origin(), ch, n);
    }
}

pub fn mortal(ctx: &dyn Context, channels: usize, weight: usize) -> (GraphNode, Arc<Grave>) {
    let grave = Arc::new(Grave::default());
    let node = GraphNode::new(
        Id::generate(),
        ctx,
        channels,
        channels,
        Box::new(Mortal {
            grave: grave.clone(),
            weight: vec![0; weight],
        }),
        DspParameters::empty(),
    );
    (node, grave)
}

/// Tells the monitor that the commands are consumed and rendering has begun.
struct Herald;

impl DspProcessor for Herald {
    fn process_audio(&mut self, _: &mut ProcessContext) {
        crate::monitor::rendering();
    }
}

pub fn herald(ctx: &dyn Context) -> GraphNode {
    GraphNode::new(Id::generate(), ctx, 1, 1, Box::new(Herald), DspParameters::empty())
}
