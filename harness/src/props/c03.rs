//! C03 graph routing.
use crate::core::*;
use crate::eng::*;
use crate::graphsim::*;
use rawdio::{connect_nodes, prelude::*, *};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "random acyclic graphs of probe nodes (fan-in, fan-out, parallel and partial connections, engine input anywhere, unwritten channels, up to several hundred nodes) rendered in irregular blocks, the input of every node in every block compared exactly; some graphs of gains are written with connect_nodes!, on an engine with the default options; non-trivial = at least 3 nodes, 3 connections and 2 calls",
        quick_cases: 40_000,
        thorough_cases: 80_000,
        parallel: true,
        assumptions: &["graphs are acyclic; channel ranges of explicit connections exist on both nodes"],
        required: &["fed_channels", "unfed_channels", "parallel", "with_input_and_upstream", "written_statements", "default_engines"],
        case,
    }
}

/// Graphs of gains written the way the documentation shows.
fn written(c: &mut Case) -> Res {
    let default = c.rng.chance(0.5);
    let mut e = if default {
        c.count("default_engines", 1);
        let e = Eng::default_engine();
        if e.ctx.get_sample_rate() != e.sr {
            return fail("default rate", format!("the default engine runs at {} Hz", e.ctx.get_sample_rate()));
        }
        if e.ctx.maximum_frame_count() != e.maxf {
            return fail("default frames", format!("the default engine renders up to {} frames", e.ctx.maximum_frame_count()));
        }
        e
    } else {
        Eng::new(rate(&mut c.rng), 2, *c.rng.pick(&[64, 16, 7, 128]))
    };
    let ch = if default { 2 } else { c.rng.range(1, 2) };
    let count = c.rng.range(2, 5);
    let gains: Vec<f32> = (0..count).map(|_| *c.rng.pick(&[0.5, 1.0, 2.0, -1.0])).collect();
    let nodes: Vec<Gain> = gains
        .iter()
        .map(|g| {
            let mut n = Gain::new(e.ctx.as_ref(), ch);
            n.gain().set_value_at_time(*g as f64, Timestamp::zero());
            n
        })
        .collect();
    // names in an order that is not the order of creation
    let mut order: Vec<usize> = (0..count).collect();
    c.rng.shuffle(&mut order);
    let mut edges: Vec<(usize, usize)> = Vec::new();
    let (mut input, mut output) = (None, None);
    for _ in 0..c.rng.range(2, 7) {
        let mut path: Vec<usize> = order.iter().copied().filter(|_| c.rng.chance(0.6)).collect();
        path.truncate(3);
        let from_in = c.rng.chance(0.5);
        let to_out = c.rng.chance(0.5);
        let n = |i: usize| &nodes[path[i]];
        match (path.len(), from_in, to_out) {
            (0, ..) | (1, false, false) => continue,
            (1, true, false) => {
                connect_nodes!("input" => n(0));
            }
            (1, false, true) => {
                connect_nodes!(n(0) => "output");
            }
            (1, true, true) => {
                connect_nodes!("input" => n(0) => "output");
            }
            (2, false, false) => {
                connect_nodes!(n(0) => n(1));
            }
            (2, true, false) => {
                connect_nodes!("input" => n(0) => n(1));
            }
            (2, false, true) => {
                connect_nodes!(n(0) => n(1) => "output");
            }
            (2, true, true) => {
                connect_nodes!("input" => n(0) => n(1) => "output");
            }
            (_, false, false) => {
                connect_nodes!(n(0) => n(1) => n(2));
            }
            (_, true, false) => {
                connect_nodes!("input" => n(0) => n(1) => n(2));
            }
            (_, false, true) => {
                connect_nodes!(n(0) => n(1) => n(2) => "output");
            }
            (_, true, true) => {
                connect_nodes!("input" => n(0) => n(1) => n(2) => "output");
            }
        }
        c.note(format!("{}{:?}{}", if from_in { "input > " } else { "" }, path, if to_out { " > output" } else { "" }));
        c.count("written_statements", 1);
        if from_in {
            input = Some(path[0]);
        }
        for w in path.windows(2) {
            edges.push((w[0], w[1]));
        }
        if to_out {
            output = path.last().copied();
        }
    }
    let sizes: Vec<usize> = (0..c.rng.range(2, 4)).map(|_| c.rng.range(1, 3 * e.maxf)).collect();
    let total: usize = sizes.iter().sum();
    // every sum is exact
    let sig: Sig = (0..ch)
        .map(|_| (0..total).map(|_| c.rng.range(0, 256) as f32 / 128.0 - 1.0).collect())
        .collect();
    e.ctx.start();
    let mut got = new_sig(ch);
    e.blocks(&sig, &mut got, &sizes);
    let mut outs: Vec<Sig> = vec![new_sig(0); count];
    for k in &order {
        let mut own: Sig = constant(ch, total, 0.0);
        for src in edges.iter().filter(|w| w.1 == *k).map(|w| &outs[w.0]).chain((input == Some(*k)).then_some(&sig)) {
            for (o, s) in own.iter_mut().flatten().zip(src.iter().flatten()) {
                *o += s;
            }
        }
        own.iter_mut().flatten().for_each(|v| *v *= gains[*k]);
        outs[*k] = own;
    }
    let want = output.map(|k| outs[k].clone()).unwrap_or_else(|| constant(ch, total, 0.0));
    if let Some((chan, i)) = first_diff_sig(&got, &want, 0.0, 0.0) {
        return fail(
            "written graph",
            format!("gains {gains:?}, edges {edges:?}, input {input:?}, output {output:?}: channel {chan} frame {i} is {}, expected {}", got[chan][i], want[chan][i]),
        );
    }
    c.nontrivial = output.is_some() && edges.len() > 1;
    Ok(())
}

fn case(c: &mut Case) -> Res {
    if c.index % 40 == 11 {
        return written(c);
    }
    let sr = rate(&mut c.rng);
    let maxf = *c.rng.pick(&[64, 16, 33, 7, 1, 128]);
    let maxch = channels(&mut c.rng, 5);
    let mut g = GraphSim::new(Eng::new(sr, maxch, maxf));
    let count = if c.index % 100 == 7 { c.rng.range(100, 400) } else { c.rng.range(2, 14) };
    let chain = c.rng.chance(0.2);
    for _ in 0..count {
        g.add_node(c);
    }
    let m = if count > 50 { count } else { c.rng.range(1, 3 * count) };
    let mut order: Vec<usize> = (0..count).collect();
    order.sort_by_key(|i| g.nodes[*i].rank);
    if chain {
        for w in order.windows(2) {
            g.connect(c, w[0], w[1]);
        }
    } else {
        for _ in 0..m {
            let a = c.rng.below(count);
            let b = if c.rng.chance(0.3) && !g.edges.is_empty() {
                // another connection between nodes that have one
                let e = g.edges[c.rng.below(g.edges.len())];
                g.connect(c, e.from, e.to);
                c.count("parallel", 1);
                continue;
            } else {
                c.rng.below(count)
            };
            if a != b {
                g.connect(c, a, b);
            }
        }
    }
    if c.rng.chance(0.8) {
        let k = c.rng.below(count);
        g.set_sys_in(c, k);
        if g.edges.iter().any(|e| e.to == k) {
            c.count("with_input_and_upstream", 1);
        }
    }
    if c.rng.chance(0.9) {
        let k = c.rng.below(count);
        g.set_sys_out(c, k);
        if c.rng.chance(0.3) {
            let k = c.rng.below(count);
            g.set_sys_out(c, k);
        }
    }
    g.e.ctx.start();
    let calls = c.rng.range(2, 6);
    for _ in 0..calls {
        let n = if count > 50 { c.rng.range(1, 2 * maxf) } else { *c.rng.pick(&[0, 1, maxf, maxf + 1, 2 * maxf, 3 * maxf + 1, maxf / 2]) };
        g.render(c, n, true)?;
    }
    c.nontrivial = count >= 3 && g.edges.len() >= 3;
    c.tag(format!("nodes{}", count.min(20)));
    Ok(())
}
