//! Driving an engine through its public API.
use crate::core::Rng;
use rawdio::{prelude::*, *};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// Every engine leaves a garbage collector thread that may sleep for a second
/// after the engine is gone: keep the number alive bounded.
fn throttle() {
    static WINDOW: AtomicU64 = AtomicU64::new(0);
    static COUNT: AtomicU64 = AtomicU64::new(0);
    loop {
        let now = SystemTime::now()
            .duration_since(UNIX_EPOCH)
            .unwrap()
            .as_millis() as u64
            / 600;
        let w = WINDOW.load(Ordering::Relaxed);
        if w != now && WINDOW.compare_exchange(w, now, Ordering::Relaxed, Ordering::Relaxed).is_ok() {
            COUNT.store(0, Ordering::Relaxed);
        }
        if COUNT.fetch_add(1, Ordering::Relaxed) < 1500 {
            return;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub type Sig = Vec<Vec<f32>>;

pub const DIRT: f32 = 12345.678;

pub struct Eng {
    pub proc: Box<dyn AudioProcess + Send>,
    pub ctx: Box<dyn Context>,
    pub sr: usize,
    pub maxf: usize,
    pub maxch: usize,
    /// frames rendered so far
    pub pos: usize,
}

impl Eng {
    pub fn new(sr: usize, maxch: usize, maxf: usize) -> Self {
        throttle();
        let (ctx, proc) = create_engine_with_options(
            EngineOptions::default()
                .with_sample_rate(sr)
                .with_maximum_channel_count(maxch)
                .with_maximum_frame_count(maxf),
        );
        Self {
            proc,
            ctx,
            sr,
            maxf,
            maxch,
            pos: 0,
        }
    }

    /// The engine of `create_engine`, with what it is documented to be.
    pub fn default_engine() -> Self {
        throttle();
        let (ctx, proc) = create_engine();
        Self { proc, ctx, sr: 44_100, maxf: 512, maxch: 2, pos: 0 }
    }

    /// Start the engine and let a long time pass before anything is connected.
    /// Returns the number of frames rendered.
    pub fn warp(&mut self, rng: &mut Rng) -> usize {
        self.ctx.start();
        let n = rng.log_uniform(1.0, (self.maxf * 100_000) as f64) as usize;
        let ib = OwnedAudioBuffer::new(n, 0, self.sr);
        let mut ob = OwnedAudioBuffer::new(n, 0, self.sr);
        self.proc.process(&ib, &mut ob);
        self.pos += n;
        n
    }

    /// One process call: feeds `input[ch][self.pos..self.pos+n]` (silence
    /// beyond its end) and appends the output.
    pub fn block(&mut self, input: &Sig, out: &mut Sig, n: usize) {
        let in_ch = input.len();
        let mut ib = OwnedAudioBuffer::new(n, in_ch, self.sr);
        for (c, data) in input.iter().enumerate() {
            for i in 0..n {
                if let Some(v) = data.get(self.pos + i) {
                    ib.set_sample(SampleLocation::new(c, i), *v);
                }
            }
        }
        let mut ob = OwnedAudioBuffer::new(n, out.len(), self.sr);
        ob.fill_with_value(DIRT);
        crate::monitor::audio(false, || self.proc.process(&ib, &mut ob));
        for (c, o) in out.iter_mut().enumerate() {
            o.extend_from_slice(ob.get_channel_data(SampleLocation::channel(c)));
        }
        self.pos += n;
    }

    pub fn blocks(&mut self, input: &Sig, out: &mut Sig, sizes: &[usize]) {
        for n in sizes {
            self.block(input, out, *n);
        }
    }
}

/// Cut `total` frames into process calls; `forced` are mandatory boundaries.
pub fn partition(rng: &mut Rng, total: usize, maxf: usize, forced: &[usize]) -> Vec<usize> {
    let style = rng.below(6);
    let fixed = match rng.below(6) {
        0 => maxf,
        1 => maxf + 1,
        2 => (maxf - 1).max(1),
        3 => 2 * maxf,
        4 => rng.range(1, maxf),
        _ => rng.range(1, 3 * maxf),
    };
    let mut cuts: Vec<usize> = forced.iter().copied().filter(|c| *c > 0 && *c < total).collect();
    cuts.push(total);
    cuts.sort();
    cuts.dedup();
    let mut v = Vec::new();
    let mut pos = 0;
    for c in cuts {
        while pos < c {
            let n = match style {
                0 | 1 => fixed,
                2 => rng.range(1, maxf.min(8)),
                3 => rng.range(1, 2 * maxf),
                4 => {
                    if rng.chance(0.3) {
                        rng.range(1, 5)
                    } else {
                        rng.range(1, 3 * maxf)
                    }
                }
                _ => c - pos,
            };
            let n = n.min(c - pos).max(1);
            v.push(n);
            pos += n;
        }
    }
    v
}

pub fn new_sig(ch: usize) -> Sig {
    vec![Vec::new(); ch]
}

pub fn noise(rng: &mut Rng, ch: usize, n: usize) -> Sig {
    (0..ch)
        .map(|_| (0..n).map(|_| rng.sample()).collect())
        .collect()
}

/// Exact silence on every channel at once, for stretches of any length.
/// `whole` mostly leaves some input after a silence longer than that.
pub fn silences(rng: &mut Rng, s: &mut Sig, whole: usize) -> usize {
    let n = s.first().map(|c| c.len()).unwrap_or(0);
    if n < 4 {
        return 0;
    }
    let mut total = 0;
    for k in 0..rng.range(1, 4) {
        let len = if k == 0 && rng.chance(0.5) {
            (whole + rng.range(1, whole.max(1))).min(n * 3 / 4)
        } else {
            rng.log_uniform(1.0, n as f64 / 2.0) as usize
        };
        let at = rng.below(n - len + 1);
        for c in s.iter_mut() {
            c[at..at + len].fill(0.0);
        }
        total += len;
    }
    total
}

pub fn constant(ch: usize, n: usize, v: f32) -> Sig {
    vec![vec![v; n]; ch]
}

pub fn to_buffer(s: &Sig, sr: usize) -> OwnedAudioBuffer {
    let n = s.first().map(|c| c.len()).unwrap_or(0);
    let mut b = OwnedAudioBuffer::new(n, s.len(), sr);
    for (c, d) in s.iter().enumerate() {
        b.fill_from_slice(d, SampleLocation::channel(c));
    }
    b
}

/// half a sample past frame `k`: events scheduled here happen at frame `k`,
/// parameter changes at frame `k + 1`, whatever the rounding of timestamps
pub fn at_frame(k: usize, sr: usize) -> Timestamp {
    Timestamp::from_samples(k as f64 + 0.5, sr)
}

/// first index where the signals differ by more than abs + rel * |expected|
pub fn first_diff(got: &[f32], want: &[f32], abs: f64, rel: f64) -> Option<usize> {
    if got.len() != want.len() {
        return Some(got.len().min(want.len()));
    }
    (0..got.len()).find(|i| {
        let (g, w) = (got[*i] as f64, want[*i] as f64);
        !((g - w).abs() <= abs + rel * w.abs())
    })
}

pub fn first_diff_sig(got: &Sig, want: &Sig, abs: f64, rel: f64) -> Option<(usize, usize)> {
    for c in 0..want.len() {
        if let Some(i) = first_diff(&got[c], &want[c], abs, rel) {
            return Some((c, i));
        }
    }
    None
}

pub const RATES: &[usize] = &[44_100, 48_000, 96_000, 8_000, 22_050, 32_000, 88_200, 192_000, 11_025, 44_101];
pub fn rate(rng: &mut Rng) -> usize {
    if rng.chance(0.6) {
        RATES[rng.below(3)]
    } else {
        *rng.pick(RATES)
    }
}
/// A number of channels: usually few, sometimes many.
pub fn channels(rng: &mut Rng, usual: usize) -> usize {
    if rng.chance(0.02) {
        rng.range(usual + 1, 20)
    } else {
        rng.range(1, usual)
    }
}
pub fn max_frames(rng: &mut Rng) -> usize {
    if rng.chance(0.02) {
        return *rng.pick(&[2048, 4096, 5000, 10_000]);
    }
    *rng.pick(&[512, 64, 128, 256, 16, 33, 100, 1, 2, 7, 480, 1024, 31])
}
