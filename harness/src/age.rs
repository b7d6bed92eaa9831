//! An engine that has seen a great many nodes and edges come and go.
use crate::core::*;
use crate::eng::*;
use crate::monitor::audio;
use crate::probe::*;
use rawdio::prelude::*;
use rawdio::*;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

/// A chain of old nodes goes on sounding while `count` others are created, connected and dropped;
/// everything temporary is destroyed once, nothing old is.
pub fn old_age(c: &mut Case, count: usize) -> Res {
    let n = 8;
    let mut e = Eng::new(48_000, 1, n);
    e.ctx.start();
    let ctx = e.ctx.as_ref();
    let mut hub = Gain::new(ctx, 1);
    hub.gain().set_value_now(0.5);
    hub.node.connect_to_input();
    let tail = Gain::new(ctx, 1);
    tail.node.connect_to_output();
    // not heard, alive all the same
    let (quiet, quiet_grave) = mortal(ctx, 1, 10);
    hub.node.connect_to(&quiet);
    let mut anchors = vec![];
    let levels = 10;
    for k in 0..levels {
        let mut g = Gain::new(ctx, 1);
        g.gain().set_value_now(2f64.powi(-k));
        hub.node.connect_to(&g.node);
        g.node.connect_to(&tail.node);
        anchors.push(g);
    }
    let expected: f32 = (0..levels).map(|k| 0.5 * 2f32.powi(-k)).sum();
    let ib = {
        let mut b = OwnedAudioBuffer::new(n, 1, 48_000);
        b.set_sample(SampleLocation::new(0, 0), 1.0);
        for f in 0..n {
            b.set_sample(SampleLocation::new(0, f), 1.0);
        }
        b
    };
    let mut ob = OwnedAudioBuffer::new(n, 1, 48_000);
    let mut graves = vec![];
    let burst = 250;
    let mut done = 0;
    while done < count {
        for k in 0..burst {
            match c.rng.below(4) {
                0 | 1 => {
                    let (x, g) = mortal(ctx, 1, 0);
                    graves.push(g);
                    if k % 7 == 0 {
                        hub.node.connect_to(&x);
                    }
                    if k % 11 == 0 {
                        audio(false, || e.proc.process(&ib, &mut ob));
                    }
                }
                2 => drop(Gain::new(ctx, 1)),
                _ => {
                    hub.node.connect_to(&quiet);
                    hub.node.disconnect_from_node(&quiet);
                }
            }
        }
        done += burst;
        audio(false, || e.proc.process(&ib, &mut ob));
        for f in 0..n {
            let v = ob.get_sample(SampleLocation::new(0, f));
            if v != expected {
                return fail("old-chain", format!("after {done} creations and connections, the chain that was never touched gives {v} instead of {expected}"));
            }
        }
        if quiet_grave.dropped.load(SeqCst) > 0 {
            return fail("old-destroyed", format!("after {done} creations and connections, the processor of a living node was destroyed"));
        }
    }
    c.count("lifetimes", done);
    let t = Instant::now();
    while graves.iter().any(|g| g.dropped.load(SeqCst) == 0) && t.elapsed() < Duration::from_secs(10) {
        std::thread::sleep(Duration::from_millis(20));
    }
    let wrong = graves.iter().filter(|g| g.dropped.load(SeqCst) != 1).count();
    if wrong > 0 {
        return fail("old-left", format!("{wrong} of {} dropped nodes' processors were not destroyed exactly once", graves.len()));
    }
    Ok(())
}
