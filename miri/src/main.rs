//! C20 under Miri: the control and the audio thread work at the same time while
//! the interpreter watches for data races and undefined behaviour, under many
//! schedules and with weak-memory effects. The program's own assertions are the
//! prefix, clock and notification rules in small.
use rawdio::{prelude::*, *};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

const N: usize = 8;

fn violation(s: String) -> ! {
    println!("MIRI-VIOLATION {s}");
    std::process::exit(1)
}

fn main() {
    let rounds: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(12);
    let sr = 8000;
    let (mut ctx, mut proc) = create_engine_with_options(
        EngineOptions::default()
            .with_sample_rate(sr)
            .with_maximum_frame_count(N)
            .with_maximum_channel_count(2),
    );
    // input -> gain (set) -> output, and everything else beside it
    let mut gain = Gain::new(ctx.as_ref(), 1);
    gain.node.connect_to_input();
    gain.node.connect_to_output();
    let rec = Recorder::new(ctx.as_mut(), 1, sr);
    let meter = Envelope::new(ctx.as_mut(), 1, Duration::ZERO, Duration::ZERO, sr as f64 / 16.0);
    gain.node.connect_to(&rec.borrow().node);
    gain.node.connect_to(&meter.borrow().node);
    let mut adsr = Adsr::new(ctx.as_ref(), 1, sr);
    gain.node.connect_to(&adsr.node);
    let mut mixer = Mixer::new(ctx.as_ref(), 1, 1);
    adsr.node.connect_to(&mixer.node);
    let mut sample = OwnedAudioBuffer::new(16, 1, sr);
    sample.fill_with_value(0.5);
    let mut sampler = Sampler::new(ctx.as_ref(), sample);
    sampler.node.connect_to(&mixer.node);
    ctx.start();

    let issued = Arc::new(AtomicUsize::new(0));
    let returned = Arc::new(AtomicUsize::new(0));
    let rendered = Arc::new(AtomicUsize::new(0));
    let started = Arc::new(AtomicUsize::new(0));
    let (i2, r2, f2, s2) = (issued.clone(), returned.clone(), rendered.clone(), started.clone());
    let audio = std::thread::spawn(move || {
        let mut seen = 0;
        for _ in 0..rounds {
            let mut ib = OwnedAudioBuffer::new(N, 1, sr);
            ib.fill_with_value(1.0);
            let mut ob = OwnedAudioBuffer::new(N, 1, sr);
            let lo = r2.load(SeqCst);
            s2.fetch_add(N, SeqCst);
            proc.process(&ib, &mut ob);
            f2.fetch_add(N, SeqCst);
            let hi = i2.load(SeqCst);
            let v = ob.get_sample(SampleLocation::new(0, 0)) as usize;
            // value k is set by command k, the default is 1
            let k = if v == 1 { 0 } else { v - 1 };
            if k < lo.max(seen) || k > hi {
                violation(format!("a call shows command {k}, between {lo} and {hi} were possible, {seen} had been seen"));
            }
            seen = k;
            std::thread::yield_now();
        }
        proc
    });
    let mut last = 0.0;
    let mut count = 0;
    let mut extra = Vec::new();
    while rendered.load(SeqCst) < rounds * N {
        if count < 40 {
            count += 1;
            issued.store(count, SeqCst);
            gain.gain().set_value_now((count + 1) as f64);
            returned.store(count, SeqCst);
        }
        let lo = rendered.load(SeqCst) as f64;
        let t = ctx.current_time().as_samples(sr);
        let hi = started.load(SeqCst) as f64;
        if t < last || t < lo - 0.1 || t > hi + 0.1 {
            violation(format!("the clock reads {t} after {last}, {lo}..={hi} were rendered"));
        }
        last = t;
        let _ = gain.gain().get_value().load(SeqCst);
        if count == 40 {
            std::thread::sleep(Duration::from_micros(50));
            continue;
        }
        match count % 8 {
            0 => adsr.note_on_at_time(Timestamp::zero()),
            1 => adsr.note_off_at_time(Timestamp::zero()),
            2 => mixer.set_level(0, 0, Level::from_linear(0.5)),
            3 if extra.len() < 4 => {
                let p = Pan::new(ctx.as_ref(), 2);
                mixer.node.connect_to(&p.node);
                extra.push(p);
            }
            4 => {
                extra.pop();
            }
            5 => rec.borrow_mut().record_now(),
            6 => {
                if count < 20 {
                    sampler.start_now();
                }
            }
            _ => {
                ctx.process_notifications();
                let _ = rec.borrow_mut().take_recording();
                for n in meter.borrow_mut().take_notifications() {
                    if n.channel_index() != 0 {
                        violation("a reading of a channel that does not exist".into());
                    }
                }
            }
        }
        std::thread::yield_now();
    }
    let proc = audio.join().unwrap();
    ctx.process_notifications();
    drop((extra, sampler, mixer, adsr, gain, rec, meter));
    drop(ctx);
    drop(proc);
    println!("MIRI-DONE");
}
