//! A graph of probe nodes next to the model of what it has to do.
use crate::core::*;
use crate::eng::*;
use crate::probe::*;
use rawdio::*;
use std::sync::{Arc, Mutex};

pub struct N {
    pub node: Option<GraphNode>,
    pub seen: Arc<Mutex<Seen>>,
    pub uid: u64,
    pub ins: usize,
    pub outs: usize,
    pub skip: u32,
    pub created_at: usize,
    /// position in the order all connections respect
    pub rank: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct E {
    pub from: usize,
    pub to: usize,
    pub sc: usize,
    pub dc: usize,
    pub n: usize,
}

pub struct GraphSim {
    pub e: Eng,
    pub nodes: Vec<N>,
    pub edges: Vec<E>,
    pub sys_in: Option<usize>,
    pub sys_out: Option<usize>,
    next_uid: u64,
    pub input_uid: u64,
}

impl GraphSim {
    pub fn new(e: Eng) -> Self {
        Self {
            e,
            nodes: Vec::new(),
            edges: Vec::new(),
            sys_in: None,
            sys_out: None,
            next_uid: 1,
            input_uid: 0,
        }
    }

    pub fn alive(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].node.is_some()).collect()
    }

    pub fn add_node(&mut self, c: &mut Case) -> usize {
        let m = self.e.maxch;
        let ins = if c.rng.chance(0.15) { 0 } else { c.rng.range(1, m) };
        let outs = if c.rng.chance(0.03) { 0 } else { c.rng.range(1, m) };
        let skip = if c.rng.chance(0.15) { c.rng.u64() as u32 } else { 0 };
        let uid = self.next_uid;
        self.next_uid += 1;
        let (node, seen) = route_node(self.e.ctx.as_ref(), uid, ins, outs, skip);
        self.nodes.push(N {
            node: Some(node),
            seen,
            uid,
            ins,
            outs,
            skip,
            created_at: self.e.pos,
            rank: c.rng.u64(),
        });
        c.note(format!("node {} {ins}->{outs} skip={:x}", self.nodes.len() - 1, skip & ((1 << outs) - 1)));
        self.nodes.len() - 1
    }

    /// Connect two nodes, in the direction that keeps the graph acyclic.
    pub fn connect(&mut self, c: &mut Case, a: usize, b: usize) {
        let (a, b) = if self.nodes[a].rank < self.nodes[b].rank { (a, b) } else { (b, a) };
        if a == b {
            return;
        }
        let (outs, ins) = (self.nodes[a].outs, self.nodes[b].ins);
        if outs == 0 || ins == 0 {
            return;
        }
        let na = self.nodes[a].node.as_ref().unwrap();
        let nb = self.nodes[b].node.as_ref().unwrap();
        let e = if c.rng.chance(0.4) {
            na.connect_to(nb);
            E { from: a, to: b, sc: 0, dc: 0, n: outs }
        } else {
            let sc = if c.rng.chance(0.4) { 0 } else { c.rng.below(outs) };
            let dc = if c.rng.chance(0.4) { 0 } else { c.rng.below(ins) };
            let most = (outs - sc).min(ins - dc);
            let n = c.rng.range(1, most);
            na.connect_channels_to(nb, sc, dc, n);
            E { from: a, to: b, sc, dc, n }
        };
        c.note(format!("connect {a}.{} -> {b}.{} x{}", e.sc, e.dc, e.n));
        self.edges.push(e);
    }

    pub fn disconnect(&mut self, c: &mut Case, a: usize, b: usize) {
        let na = self.nodes[a].node.as_ref().unwrap();
        let nb = self.nodes[b].node.as_ref().unwrap();
        na.disconnect_from_node(nb);
        let before = self.edges.len();
        self.edges.retain(|e| !(e.from == a && e.to == b));
        c.note(format!("disconnect {a} -> {b} ({} edges)", before - self.edges.len()));
    }

    pub fn drop_node(&mut self, c: &mut Case, a: usize) {
        self.nodes[a].node = None;
        self.edges.retain(|e| e.from != a && e.to != a);
        c.note(format!("drop {a}"));
    }

    pub fn set_sys_in(&mut self, c: &mut Case, a: usize) {
        self.nodes[a].node.as_ref().unwrap().connect_to_input();
        self.sys_in = Some(a);
        c.note(format!("input -> {a}"));
    }

    pub fn set_sys_out(&mut self, c: &mut Case, a: usize) {
        self.nodes[a].node.as_ref().unwrap().connect_to_output();
        self.sys_out = Some(a);
        c.note(format!("{a} -> output"));
    }

    /// Render one call and compare everything that is observable in it.
    pub fn render(&mut self, c: &mut Case, n: usize, started: bool) -> Res {
        let in_ch = c.rng.range(0, self.e.maxch + 1);
        let out_ch = c.rng.range(0, self.e.maxch + 1);
        let (sr, pos) = (self.e.sr, self.e.pos);
        c.note(format!("render {n} in={in_ch} out={out_ch} started={started}"));
        let mut ib = OwnedAudioBuffer::new(n, in_ch, sr);
        for ch in 0..in_ch {
            for i in 0..n {
                ib.set_sample(SampleLocation::new(ch, i), tone(self.input_uid, ch, pos + i));
            }
        }
        let mut ob = OwnedAudioBuffer::new(n, out_ch, sr);
        ob.fill_with_value(*c.rng.pick(&[DIRT, f32::NAN]));
        self.e.proc.process(&ib, &mut ob);
        let mut compared = 0;
        let blocks = n.div_ceil(self.e.maxf);
        // what each node produced and saw
        let alive = self.alive();
        let mut outputs: Vec<Vec<Vec<f32>>> = vec![Vec::new(); self.nodes.len()];
        let mut inputs: Vec<Vec<Vec<f32>>> = vec![Vec::new(); self.nodes.len()];
        for (k, nd) in self.nodes.iter().enumerate() {
            let mut s = nd.seen.lock().unwrap();
            let calls = std::mem::take(&mut s.calls);
            let times = std::mem::take(&mut s.times);
            outputs[k] = std::mem::take(&mut s.output);
            inputs[k] = std::mem::take(&mut s.input);
            let want_calls = if started && nd.node.is_some() { blocks } else { 0 };
            if calls != want_calls {
                return fail("processed", format!("node {k} was processed {calls} times in a call of {blocks} blocks (alive: {}, started: {started})", nd.node.is_some()));
            }
            if calls == 0 {
                continue;
            }
            if inputs[k].len() != nd.ins || outputs[k].len() != nd.outs {
                return fail("channels", format!("node {k} saw {} -> {} channels", inputs[k].len(), outputs[k].len()));
            }
            let first = times[0].0;
            for (at, ticks) in times {
                let want = ((pos + at - first) as f64 / sr as f64 * 4294967296.0) as i64;
                if (ticks - want).abs() > 3 {
                    return fail("block-time", format!("node {k}: block time {ticks} instead of {want}"));
                }
            }
        }
        if started && n > 0 {
            // zero-length signals have no samples to look at
            for &k in &alive {
                for ch in 0..self.nodes[k].ins {
                    let mut want = vec![0.0f32; n];
                    if self.sys_in == Some(k) && ch < in_ch.min(self.e.maxch) {
                        for (i, w) in want.iter_mut().enumerate() {
                            *w += tone(self.input_uid, ch, pos + i);
                        }
                    }
                    let mut fed = self.sys_in == Some(k);
                    for e in self.edges.iter().filter(|e| e.to == k && ch >= e.dc && ch < e.dc + e.n) {
                        let s = ch - e.dc + e.sc;
                        fed = true;
                        if s < self.nodes[e.from].outs {
                            for (w, v) in want.iter_mut().zip(&outputs[e.from][s]) {
                                *w += v;
                            }
                        }
                    }
                    compared += n;
                    if n > 0 {
                        c.count(if fed { "fed_channels" } else { "unfed_channels" }, 1);
                    }
                    let got = &inputs[k][ch];
                    if n > 0 {
                        if let Some(i) = first_diff(got, &want, 0.0, 0.0) {
                            return fail(
                                "node-input",
                                format!("node {k} input {ch} frame {i}: got {} instead of {} (edges into it: {:?}, system input: {:?})", got[i], want[i],
                                    self.edges.iter().filter(|e| e.to == k).collect::<Vec<_>>(), self.sys_in == Some(k)),
                            );
                        }
                    }
                }
            }
        }
        for ch in 0..out_ch {
            let got = ob.get_channel_data(SampleLocation::channel(ch));
            for i in 0..n {
                let want = match self.sys_out {
                    Some(k) if started && self.nodes[k].node.is_some() && ch < self.nodes[k].outs => outputs[k][ch][i],
                    _ => 0.0,
                };
                if got[i] != want {
                    return fail("engine-output", format!("output channel {ch} frame {i}: got {} instead of {want} (output node {:?})", got[i], self.sys_out));
                }
            }
            compared += n;
        }
        c.count("samples_compared", compared);
        if started && n > 0 {
            self.e.pos += n;
            c.count("rendered_calls", 1);
            c.count("node_blocks", alive.len() * blocks);
        }
        Ok(())
    }
}
