//! C04 graph edits while running.
use crate::core::*;
use crate::eng::*;
use crate::graphsim::*;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "random histories of creating, connecting, disconnecting, reconnecting (also in the other direction), dropping nodes, moving input and output, stopping and starting, with rendering in between; the input of every surviving node in every block is compared exactly with the model; one engine outlives 300000 creations and connections; non-trivial = a drop of a connected node or a disconnect of an existing connection with rendering after it",
        quick_cases: 40_000,
        thorough_cases: 60_000,
        parallel: true,
        assumptions: &["the graph is acyclic whenever a block is rendered"],
        required: &["lifetimes", "dropped_connected", "dropped_unconnected", "disconnected", "disconnected_none", "reversed", "rendered_calls"],
        case,
    }
}

fn case(c: &mut Case) -> Res {
    if c.index == 7 {
        c.nontrivial = true;
        return crate::age::old_age(c, if c.thorough() { 2_000_000 } else { 300_000 });
    }
    let sr = rate(&mut c.rng);
    let maxf = *c.rng.pick(&[64, 16, 33, 7, 1, 128]);
    let maxch = channels(&mut c.rng, 4);
    let mut g = GraphSim::new(Eng::new(sr, maxch, maxf));
    let mut started = c.rng.chance(0.7);
    if started {
        g.e.ctx.start();
    }
    let limit = if c.index % 50 == 9 { 60 } else { c.rng.range(3, 14) };
    let steps = c.rng.range(20, if c.thorough() { 400 } else { 120 });
    let mut edits_since = 0;
    let render_p = *c.rng.pick(&[0.1, 0.3, 0.6]);
    for _ in 0..steps {
        if c.rng.chance(render_p) {
            let n = *c.rng.pick(&[0, 1, maxf, maxf + 1, 2 * maxf, maxf / 2, maxf]);
            g.render(c, n, started)?;
            if started && n > 0 && edits_since > 0 {
                edits_since = 0;
                c.nontrivial = true;
            }
            continue;
        }
        let alive = g.alive();
        if alive.len() < 2 || (alive.len() < limit && c.rng.chance(0.15)) {
            g.add_node(c);
            continue;
        }
        let a = *c.rng.pick(&alive);
        let b = *c.rng.pick(&alive);
        match c.rng.below(20) {
            0..=6 => {
                if a != b {
                    g.connect(c, a, b);
                }
            }
            7..=9 => {
                if let Some(e) = (!g.edges.is_empty()).then(|| g.edges[c.rng.below(g.edges.len())]) {
                    g.disconnect(c, e.from, e.to);
                    c.count("disconnected", 1);
                    edits_since += 1;
                    if c.rng.chance(0.3) {
                        g.connect(c, e.from, e.to);
                    } else if c.rng.chance(0.2) {
                        // the other way round, if that keeps it acyclic: swap
                        // ranks after cutting everything off both
                        let (x, y) = (e.from, e.to);
                        let cut: Vec<E> = g.edges.iter().filter(|k| [k.from, k.to].contains(&x) || [k.from, k.to].contains(&y)).copied().collect();
                        for k in cut {
                            g.disconnect(c, k.from, k.to);
                        }
                        let r = g.nodes[x].rank;
                        g.nodes[x].rank = g.nodes[y].rank;
                        g.nodes[y].rank = r;
                        g.connect(c, x, y);
                        c.count("reversed", 1);
                    }
                }
            }
            10 => {
                // two that may well not be connected, or only the other way
                let n = g.edges.iter().filter(|e| e.from == a && e.to == b).count();
                if a != b {
                    g.disconnect(c, a, b);
                    c.count(if n == 0 { "disconnected_none" } else { "disconnected" }, 1);
                }
            }
            11 | 12 => {
                let n = g.edges.iter().filter(|e| e.from == a || e.to == a).count();
                g.drop_node(c, a);
                c.count(if n == 0 { "dropped_unconnected" } else { "dropped_connected" }, 1);
                if n > 0 {
                    edits_since += 1;
                }
                if c.rng.chance(0.3) {
                    g.add_node(c);
                }
            }
            13 => g.set_sys_in(c, a),
            14 | 15 => g.set_sys_out(c, a),
            16 => {
                started = !started;
                if started {
                    g.e.ctx.start()
                } else {
                    g.e.ctx.stop()
                }
                c.note(format!("started={started}"));
            }
            17 => {
                // double an existing connection
                if let Some(e) = (!g.edges.is_empty()).then(|| g.edges[c.rng.below(g.edges.len())]) {
                    g.connect(c, e.from, e.to);
                    c.count("parallel", 1);
                }
            }
            _ => {
                // a burst of drops
                if c.rng.chance(0.2) {
                    let mut v = alive.clone();
                    c.rng.shuffle(&mut v);
                    let k = c.rng.range(1, v.len());
                    for x in v.into_iter().take(k) {
                        g.drop_node(c, x);
                        c.count("dropped_in_bursts", 1);
                    }
                }
            }
        }
    }
    if !started {
        g.e.ctx.start();
    }
    g.render(c, maxf + 1, true)?;
    // dropped processors are destroyed once, never twice
    for n in &g.nodes {
        if n.seen.lock().unwrap().dropped > 1 || (n.node.is_some() && n.seen.lock().unwrap().dropped > 0) {
            return fail("destroyed", "a live processor was destroyed, or one twice".into());
        }
    }
    Ok(())
}
