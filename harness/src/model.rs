//! Reference models shared by several properties. Time in samples (f64).

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Set,
    Lin,
    Exp,
}

#[derive(Clone, Copy, Debug)]
pub struct Change {
    pub start: f64,
    pub end: f64,
    pub kind: Kind,
    pub value: f64,
}

/// The specified behaviour of one automated parameter. Changes are assumed
/// not to overlap (a change starts at or after the end of the one before it).
#[derive(Clone, Debug)]
pub struct ParamModel {
    pub value: f64,
    pub lo: f64,
    pub hi: f64,
    pub pending: Vec<Change>,
    active: Option<(f64, f64, Change)>, // start value, effective start, change
}

impl ParamModel {
    pub fn new(value: f64, lo: f64, hi: f64) -> Self {
        Self {
            value,
            lo,
            hi,
            pending: Vec::new(),
            active: None,
        }
    }
    pub fn add(&mut self, mut ch: Change) {
        ch.value = ch.value.clamp(self.lo, self.hi);
        if ch.kind == Kind::Set {
            ch.start = ch.end;
        }
        let at = self.pending.iter().position(|p| p.end > ch.end).unwrap_or(self.pending.len());
        self.pending.insert(at, ch);
    }
    pub fn set_now(&mut self, v: f64) {
        self.add(Change { start: 0.0, end: 0.0, kind: Kind::Set, value: v });
    }
    pub fn cancel(&mut self, after: Option<f64>) -> usize {
        let n = self.pending.len();
        match after {
            None => self.pending.clear(),
            Some(t) => self.pending.retain(|c| c.end <= t),
        }
        n - self.pending.len()
    }
    fn curve(a: &(f64, f64, Change), f: f64) -> f64 {
        let (v0, s, c) = a;
        if f <= *s {
            return *v0;
        }
        if f >= c.end {
            return c.value;
        }
        let x = (f - s) / (c.end - s);
        match c.kind {
            Kind::Exp => v0 * (c.value / v0).powf(x),
            _ => v0 + (c.value - v0) * x,
        }
    }
    /// Advance to frame `f` and return the interval its value may lie in and
    /// whether it is exactly determined (lo == hi).
    pub fn step(&mut self, f: usize) -> (f64, f64) {
        let t = f as f64;
        loop {
            if let Some(a) = &self.active {
                if a.2.end <= t {
                    self.value = a.2.value;
                    self.active = None;
                }
            }
            match self.pending.first() {
                Some(c) if c.start <= t => {
                    let c = self.pending.remove(0);
                    if c.end <= t {
                        self.active = None;
                        self.value = c.value;
                    } else {
                        let v0 = match &self.active {
                            Some(a) => Self::curve(a, t),
                            None => self.value,
                        };
                        let s = if c.start > t - 1.0 { c.start } else { t };
                        self.active = Some((v0, s, c));
                    }
                }
                _ => break,
            }
        }
        match &self.active {
            None => (self.value, self.value),
            Some(a) => {
                // one sample of slack in time along the (monotone) curve
                let x = Self::curve(a, t - 1.02);
                let y = Self::curve(a, t + 1.02);
                (x.min(y), x.max(y))
            }
        }
    }
    pub fn ramping(&self) -> bool {
        self.active.is_some()
    }
    /// Exact value expected of a parameter that only ever gets sets.
    pub fn step_exact(&mut self, f: usize) -> f64 {
        let (a, b) = self.step(f);
        debug_assert!(a == b);
        a
    }
}

/// Random automation of a parameter together with its model.
pub struct Auto {
    pub model: ParamModel,
    pub free: f64,
    /// changes made so far
    pub made: usize,
    pub ramps: bool,
    pub exp: bool,
    /// where the latest change leads
    pub latest: f64,
    /// excursions: away from a value and back to it, shortly
    pub excursions: usize,
}

impl Auto {
    pub fn new(value: f64, lo: f64, hi: f64) -> Self {
        Self {
            model: ParamModel::new(value, lo, hi),
            free: 0.0,
            made: 0,
            ramps: true,
            exp: lo > 0.0,
            latest: value,
            excursions: 0,
        }
    }
    /// One random change at or after frame `now`, made to each of `handles`.
    pub fn change(
        &mut self,
        rng: &mut crate::core::Rng,
        handles: &mut [&mut rawdio::AudioParameter],
        now: usize,
        sr: usize,
        value: f64,
        note: &mut dyn FnMut(String),
    ) {
        let before = std::mem::replace(&mut self.latest, value);
        let back = rng.chance(0.2);
        self.one(rng, handles, now, sr, value, note);
        if back {
            self.excursions += 1;
            self.latest = before;
            self.one(rng, handles, now, sr, before, note);
        }
    }
    fn one(
        &mut self,
        rng: &mut crate::core::Rng,
        handles: &mut [&mut rawdio::AudioParameter],
        now: usize,
        sr: usize,
        value: f64,
        note: &mut dyn FnMut(String),
    ) {
        let now_f = now as f64;
        self.made += 1;
        if rng.chance(0.3) && self.free <= now_f && !self.model.ramping() {
            for h in handles.iter_mut() {
                h.set_value_now(value);
            }
            self.model.set_now(value);
            note(format!("@{now} now {value}"));
            return;
        }
        let kind = match rng.below(4) {
            0 if self.exp && value > 0.0 => Kind::Exp,
            0 | 1 if self.ramps => Kind::Lin,
            _ => Kind::Set,
        };
        let gap = if rng.chance(0.5) { 4 } else { 300 };
        let len = if rng.chance(0.3) { 8 } else { 600 };
        let start = self.free.max(now_f) + rng.below(gap) as f64;
        let start = start.floor() + 0.5;
        let end = match kind {
            Kind::Set => start,
            _ => start + rng.range(1, len) as f64 + 0.25 * rng.below(2) as f64,
        };
        let at = |x: f64| rawdio::Timestamp::from_samples(x, sr);
        for h in handles.iter_mut() {
            match kind {
                Kind::Set => h.set_value_at_time(value, at(end)),
                Kind::Lin => h.linear_ramp_to_value(value, at(start), at(end)),
                Kind::Exp => h.exponential_ramp_to_value(value, at(start), at(end)),
            }
        }
        note(format!("@{now} {kind:?} {start}..{end} -> {value}"));
        self.free = end + 1.0;
        self.model.add(Change { start, end, kind, value });
    }
}

/// A node in the same engine whose parameters get the same schedule as the
/// node under test and which records the value of every sample.
pub struct Twin {
    pub node: rawdio::GraphNode,
    pub params: Vec<rawdio::AudioParameter>,
    pub autos: Vec<Auto>,
    log: crate::probe::Log,
}

impl Twin {
    /// spec: (name, default, minimum, maximum)
    pub fn new(ctx: &dyn rawdio::Context, spec: &[(&'static str, f64, f64, f64)]) -> Self {
        let (node, params, log) = crate::probe::param_node(ctx, spec);
        Self {
            node,
            params,
            autos: spec.iter().map(|s| Auto::new(s.1, s.2, s.3)).collect(),
            log,
        }
    }
    /// A linear ramp over the given frames.
    pub fn ramp(&mut self, k: usize, real: &mut rawdio::AudioParameter, start: f64, end: f64, sr: usize, value: f64) {
        let at = |x: f64| rawdio::Timestamp::from_samples(x, sr);
        for h in [real, &mut self.params[k]] {
            h.linear_ramp_to_value(value, at(start), at(end));
        }
        self.autos[k].model.add(Change { start, end, kind: Kind::Lin, value });
        self.autos[k].free = end + 1.0;
        self.autos[k].latest = value;
    }
    #[allow(clippy::too_many_arguments)]
    pub fn change(
        &mut self,
        rng: &mut crate::core::Rng,
        k: usize,
        real: &mut rawdio::AudioParameter,
        now: usize,
        sr: usize,
        value: f64,
        note: &mut dyn FnMut(String),
    ) {
        self.autos[k].change(rng, &mut [real, &mut self.params[k]], now, sr, value, note);
    }
    /// both now, without randomness
    pub fn set_now(&mut self, k: usize, real: &mut rawdio::AudioParameter, value: f64) {
        real.set_value_now(value);
        self.params[k].set_value_now(value);
        self.autos[k].model.set_now(value);
        self.autos[k].made += 1;
    }
    /// the values taken since the last call, per parameter
    pub fn take(&mut self) -> Vec<Vec<f32>> {
        let mut l = self.log.lock().unwrap();
        let n = l.len();
        let v = std::mem::replace(&mut *l, vec![Vec::new(); n]);
        // keep the models going: they know when a parameter is ramping
        v
    }
    /// tell the models how far rendering has come
    pub fn advance(&mut self, frame: usize) {
        for a in self.autos.iter_mut() {
            a.model.step(frame);
        }
    }
    pub fn made(&self) -> usize {
        self.autos.iter().map(|a| a.made).sum()
    }
}

/// got within the hull of f over [lo, hi] for a monotone f
pub fn in_hull(got: f32, a: f64, b: f64, tol: f64) -> bool {
    let g = got as f64;
    g >= a.min(b) - tol && g <= a.max(b) + tol
}
