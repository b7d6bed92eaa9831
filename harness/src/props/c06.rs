//! C06 audio buffer operations: a shadow copy of every live buffer, compared
//! in full after every operation.
use crate::core::*;
use crate::eng::first_diff;
use rawdio::verif_hooks::SampleRange;
use rawdio::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "random sequences of all buffer operations on several owned buffers and on up to four times nested slices of them, every sample of every buffer compared with a shadow after each; non-trivial = at least 10 operations, one through a nested slice and one between two buffers",
        quick_cases: 150_000,
        thorough_cases: 5_000_000,
        parallel: true,
        assumptions: &["arguments name samples that exist", "gain operations within 4e-7 relative (gains within 1.2e-7 of 0 or 1 may be taken as 0 or 1)"],
        required: &["sliced", "nested", "same_alignment", "different_alignment", "op:add_from", "op:add_from_with_gain", "op:apply_gain", "op:apply_gain_value", "op:duplicate_channel", "op:fill_from_interleaved", "op:copy_to_interleaved", "op:sample_rate_convert", "op:extended", "op:padded", "op:from_slice", "op:slice_channels"],
        case,
    }
}

type Shadow = Vec<Vec<f32>>;
struct B {
    buf: OwnedAudioBuffer,
    sh: Shadow,
    sr: usize,
}

#[derive(Clone, Copy, Debug)]
enum Sl {
    Frames(usize, usize),
    Channels(usize, usize),
    Both(usize, usize),
    Range(usize, usize, usize, usize),
}

#[derive(Clone, Debug)]
struct View {
    slices: Vec<Sl>,
    c0: usize,
    f0: usize,
    ch: usize,
    n: usize,
}

fn view(c: &mut Case, ch: usize, n: usize, deepest: usize) -> View {
    let mut v = View { slices: vec![], c0: 0, f0: 0, ch, n };
    let depth = if c.rng.chance(0.4) { 0 } else { c.rng.below(deepest + 1) };
    for _ in 0..depth {
        let (a, b) = {
            let a = if c.rng.chance(0.5) { 0 } else { c.rng.range(0, v.ch) };
            (a, if c.rng.chance(0.5) { v.ch - a } else { c.rng.range(0, v.ch - a) })
        };
        let (f, g) = {
            let f = if c.rng.chance(0.3) { 0 } else if c.rng.chance(0.5) { c.rng.range(0, v.n.min(20)) } else { c.rng.range(0, v.n) };
            let r = v.n - f;
            (f, if c.rng.chance(0.5) { r - c.rng.below(r.min(3) + 1) } else { c.rng.range(0, r) })
        };
        match c.rng.below(4) {
            0 => {
                v.slices.push(Sl::Frames(f, g));
                v.f0 += f;
                v.n = g;
            }
            1 => {
                v.slices.push(Sl::Channels(a, b));
                v.c0 += a;
                v.ch = b;
                c.count("op:slice_channels", 1);
            }
            2 => {
                v.slices.push(Sl::Both(g, b));
                v.ch = b;
                v.n = g;
            }
            _ => {
                v.slices.push(Sl::Range(a, f, b, g));
                v.c0 += a;
                v.ch = b;
                v.f0 += f;
                v.n = g;
            }
        }
    }
    if depth > 0 {
        c.count("sliced", 1);
    }
    if depth > 1 {
        c.count("nested", 1);
    }
    v
}

fn with_ref(b: &dyn AudioBuffer, s: &[Sl], f: &mut dyn FnMut(&dyn AudioBuffer)) {
    match s.split_first() {
        None => f(b),
        Some((x, rest)) => {
            let v = match *x {
                Sl::Frames(a, n) => BorrowedAudioBuffer::slice_frames(b, a, n),
                Sl::Channels(a, n) => BorrowedAudioBuffer::slice_channels(b, a, n),
                Sl::Both(n, ch) => BorrowedAudioBuffer::slice_channels_and_frames(b, n, ch),
                Sl::Range(a, fr, ch, n) => BorrowedAudioBuffer::slice(b, SampleRange::new(a, fr, ch, n)),
            };
            with_ref(&v, rest, f)
        }
    }
}

fn with_mut(b: &mut dyn AudioBuffer, s: &[Sl], f: &mut dyn FnMut(&mut dyn AudioBuffer)) {
    match s.split_first() {
        None => f(b),
        Some((x, rest)) => {
            let mut v = match *x {
                Sl::Frames(a, n) => MutableBorrowedAudioBuffer::slice_frames(b, a, n),
                Sl::Channels(a, n) => MutableBorrowedAudioBuffer::slice_channels(b, a, n),
                Sl::Both(n, ch) => MutableBorrowedAudioBuffer::slice_channels_and_frames(b, n, ch),
                Sl::Range(a, fr, ch, n) => MutableBorrowedAudioBuffer::slice(b, SampleRange::new(a, fr, ch, n)),
            };
            with_mut(&mut v, rest, f)
        }
    }
}

fn sub(sh: &Shadow, v: &View) -> Shadow {
    (0..v.ch).map(|c| sh[v.c0 + c][v.f0..v.f0 + v.n].to_vec()).collect()
}

fn put(sh: &mut Shadow, v: &View, s: &Shadow) {
    for c in 0..v.ch {
        sh[v.c0 + c][v.f0..v.f0 + v.n].copy_from_slice(&s[c]);
    }
}

fn new_buf(c: &mut Case) -> B {
    let ch = crate::eng::channels(&mut c.rng, 5);
    let n = match c.rng.below(6) {
        0 => c.rng.range(0, 4),
        1 => c.rng.range(15, 17),
        2 => 16 * c.rng.range(1, 8),
        3 => c.rng.range(200, 700),
        _ => c.rng.range(1, 200),
    };
    let sr = *c.rng.pick(&[44_100, 48_000, 22_050, 96_000, 100]);
    let mut buf = OwnedAudioBuffer::new(n, ch, sr);
    let mut sh = vec![vec![0.0; n]; ch];
    for k in 0..ch {
        for i in 0..n {
            sh[k][i] = c.rng.sample();
            buf.set_sample(SampleLocation::new(k, i), sh[k][i]);
        }
    }
    B { buf, sh, sr }
}

fn same(got: &dyn AudioBuffer, want: &Shadow, rel: f64, abs: f64, what: &str) -> Res {
    if got.channel_count() != want.len() {
        return fail("shape", format!("{what}: {} channels instead of {}", got.channel_count(), want.len()));
    }
    for (k, w) in want.iter().enumerate() {
        if got.frame_count() != w.len() {
            return fail("shape", format!("{what}: {} frames instead of {}", got.frame_count(), w.len()));
        }
        let d = got.get_channel_data(SampleLocation::channel(k));
        if d.len() != w.len() {
            return fail("shape", format!("{what}: channel data of {} frames instead of {}", d.len(), w.len()));
        }
        if let Some(i) = first_diff(d, w, abs, rel) {
            return fail("samples", format!("{what}: channel {k} frame {i} is {} instead of {}", d[i], w[i]));
        }
    }
    Ok(())
}

fn case(c: &mut Case) -> Res {
    let count = c.rng.range(2, 4);
    let mut bufs: Vec<B> = (0..count).map(|_| new_buf(c)).collect();
    let steps = c.rng.range(10, 60);
    let (mut nested, mut between) = (false, false);
    for _ in 0..steps {
        let t = c.rng.below(count);
        let s = {
            let s = c.rng.below(count);
            if s == t {
                (t + 1) % count
            } else {
                s
            }
        };
        let tv = view(c, bufs[t].sh.len(), bufs[t].sh[0].len(), 4);
        let sv = view(c, bufs[s].sh.len(), bufs[s].sh[0].len(), 3);
        nested |= tv.slices.len() > 1;
        let mut target = sub(&bufs[t].sh, &tv);
        let source = sub(&bufs[s].sh, &sv);
        // locations and extents inside both views
        let (sc, sf) = (c.rng.range(0, sv.ch), if c.rng.chance(0.3) { 0 } else { c.rng.range(0, sv.n) });
        let (dc, df) = (c.rng.range(0, tv.ch), if c.rng.chance(0.3) { 0 } else { c.rng.range(0, tv.n) });
        // often give both ends the same place within a vector
        let sf = if sc < sv.ch && dc < tv.ch && c.rng.chance(0.4) {
            let at = |b: &B, v: &View, ch: usize, f: usize| b.buf.get_channel_data(SampleLocation::new(v.c0 + ch, v.f0 + f)).as_ptr() as usize / 4 % 16;
            let want = at(&bufs[t], &tv, dc, df);
            let have = at(&bufs[s], &sv, sc, 0);
            let f = (want + 16 - have) % 16 + 16 * c.rng.below(2);
            if f <= sv.n { f } else { sf }
        } else {
            sf
        };
        let kmax = (sv.ch - sc).min(tv.ch - dc);
        let nmax = (sv.n - sf).min(tv.n - df);
        let k = c.rng.range(0, kmax);
        let n = if c.rng.chance(0.6) { nmax } else { c.rng.range(0, nmax) };
        let gain = *c.rng.pick(&[0.0f32, 1.0, -1.0, 0.5, 2.0, 1e-5, -0.3, 0.99999]);
        let val = c.rng.sample();
        let mut rel = 0.0;
        let mut abs = 0.0;
        let op;
        {
            let (tb, sb) = if t < s {
                let (x, y) = bufs.split_at_mut(s);
                (&mut x[t], &y[0])
            } else {
                let (x, y) = bufs.split_at_mut(t);
                (&mut y[0], &x[s])
            };
            let (tsr, ssr) = (tb.sr, sb.sr);
            match c.rng.below(22) {
                0 if tv.ch > 0 && tv.n > 0 => {
                    op = "set_sample";
                    let l = SampleLocation::new(c.rng.below(tv.ch), c.rng.below(tv.n));
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.set_sample(l, val));
                    target[l.channel][l.frame] = val;
                }
                1 if tv.ch > 0 && tv.n > 0 => {
                    op = "add_sample";
                    let l = SampleLocation::new(c.rng.below(tv.ch), c.rng.below(tv.n));
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.add_sample(l, val));
                    target[l.channel][l.frame] += val;
                }
                2 => {
                    op = "clear";
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.clear());
                    target.iter_mut().for_each(|x| x.fill(0.0));
                }
                3 => {
                    op = "clear_range";
                    let k = c.rng.range(0, tv.ch - dc);
                    let n = c.rng.range(0, tv.n - df);
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.clear_range(&SampleRange::new(dc, df, k, n)));
                    for x in &mut target[dc..dc + k] {
                        x[df..df + n].fill(0.0);
                    }
                }
                4 if tv.ch > 0 => {
                    op = "fill_channel";
                    let k = c.rng.below(tv.ch);
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.fill_channel_with_value(k, val));
                    target[k].fill(val);
                }
                5 => {
                    op = "fill";
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.fill_with_value(val));
                    target.iter_mut().for_each(|x| x.fill(val));
                }
                x @ 6..=11 => {
                    between = true;
                    let (sl, dl) = (SampleLocation::new(sc, sf), SampleLocation::new(dc, df));
                    op = ["add_from", "add_from_with_gain", "copy_from"][(x - 6) % 3];
                    let (mut sa, mut da) = (0usize, 0usize);
                    with_ref(&sb.buf, &sv.slices, &mut |sb| {
                        with_mut(&mut tb.buf, &tv.slices, &mut |tb| {
                            if k > 0 && n >= 32 {
                                sa = sb.get_channel_data(sl).as_ptr() as usize % 64;
                                da = tb.get_channel_data(dl).as_ptr() as usize % 64;
                            }
                            match op {
                                "add_from" => tb.add_from(sb, sl, dl, k, n),
                                "add_from_with_gain" => tb.add_from_with_gain(sb, sl, dl, k, n, gain),
                                _ => tb.copy_from(sb, sl, dl, k, n),
                            }
                        })
                    });
                    if k > 0 && n >= 32 {
                        c.count(if sa == da { "same_alignment" } else { "different_alignment" }, 1);
                    }
                    for q in 0..k {
                        for i in 0..n {
                            let x = source[sc + q][sf + i];
                            let d = &mut target[dc + q][df + i];
                            match op {
                                "add_from" => *d += x,
                                "add_from_with_gain" => {
                                    *d += x * gain;
                                    abs = 4e-7;
                                }
                                _ => *d = x,
                            }
                        }
                    }
                }
                12 => {
                    op = "copy_within";
                    let k = c.rng.range(0, tv.ch - dc);
                    let n = c.rng.range(0, tv.n - df);
                    let to = c.rng.range(0, tv.n - n);
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.copy_within(&SampleRange::new(dc, df, k, n), to));
                    for x in &mut target[dc..dc + k] {
                        x.copy_within(df..df + n, to);
                    }
                }
                13 | 14 => {
                    op = "apply_gain";
                    let style = c.rng.below(6);
                    let g: Vec<f32> = (0..tv.n)
                        .map(|i| match style {
                            0 => 0.0,
                            1 => 1.0,
                            // all but one
                            2 => (i == df) as u32 as f32,
                            3 => (i != df) as u32 as f32,
                            4 => 1e-3 + i as f32 / tv.n as f32,
                            _ => c.rng.sample() * 2.0,
                        })
                        .collect();
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.apply_gain(&g));
                    for x in target.iter_mut() {
                        for i in 0..x.len() {
                            x[i] *= g[i];
                        }
                    }
                    rel = 4e-7;
                    abs = 4e-7;
                }
                15 => {
                    op = "apply_gain_value";
                    let k = c.rng.range(0, tv.ch - dc);
                    let n = c.rng.range(0, tv.n - df);
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.apply_gain_value(&SampleRange::new(dc, df, k, n), gain));
                    for x in &mut target[dc..dc + k] {
                        x[df..df + n].iter_mut().for_each(|v| *v *= gain);
                    }
                    rel = 4e-7;
                    abs = 4e-7;
                }
                16 if tv.ch > 0 => {
                    op = "duplicate_channel";
                    let (from, to) = (c.rng.below(tv.ch), c.rng.below(tv.ch));
                    let n = c.rng.range(0, tv.n - df);
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.duplicate_channel(SampleLocation::new(from, df), to, n));
                    let src = target[from][df..df + n].to_vec();
                    target[to][df..df + n].copy_from_slice(&src);
                }
                17 | 18 => {
                    op = "fill_from_interleaved";
                    // also data of more or fewer channels and frames
                    let ich = c.rng.range(0, tv.ch + 2);
                    let ifr = c.rng.range(0, tv.n + 3);
                    let extra = c.rng.below(3);
                    let data: Vec<f32> = (0..ich * ifr + extra).map(|_| c.rng.sample()).collect();
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.fill_from_interleaved(&data, ich, ifr));
                    for q in 0..ich.min(tv.ch) {
                        for i in 0..ifr.min(tv.n) {
                            target[q][i] = data[i * ich + q];
                        }
                    }
                }
                19 if tv.ch > 0 => {
                    op = "fill_from_slice";
                    let k = c.rng.below(tv.ch);
                    let data: Vec<f32> = (0..tv.n - df).map(|_| c.rng.sample()).collect();
                    with_mut(&mut tb.buf, &tv.slices, &mut |b| b.fill_from_slice(&data, SampleLocation::new(k, df)));
                    target[k][df..].copy_from_slice(&data);
                }
                20 if sv.n > sf => {
                    op = "sample_rate_convert";
                    between = true;
                    let (sl, dl) = (SampleLocation::new(sc, sf), SampleLocation::new(dc, df));
                    with_ref(&sb.buf, &sv.slices, &mut |sb| {
                        with_mut(&mut tb.buf, &tv.slices, &mut |tb| tb.sample_rate_convert_from(sb, sl, dl, k))
                    });
                    let ratio = ssr as f64 / tsr as f64;
                    for q in 0..k {
                        let src = &source[sc + q][sf..];
                        for i in 0..tv.n - df {
                            let x = i as f64 * ratio;
                            let a = (x.floor() as usize).min(src.len() - 1);
                            let b = (x.floor() as usize + 1).min(src.len() - 1);
                            let f = x - x.floor();
                            target[dc + q][df + i] = (src[a] as f64 * (1.0 - f) + src[b] as f64 * f) as f32;
                        }
                    }
                    // the position is computed in single precision
                    abs = 1e-5 + 4e-7 * tv.n as f64 * ratio;
                }
                _ => {
                    op = "read";
                    read_only(c, sb, &sv, &source, tsr)?;
                }
            }
            c.note(format!("{op} buffer {t} {:?} <- {s} {:?} loc {sc},{sf}->{dc},{df} {k}x{n}", tv.slices, sv.slices));
            put(&mut tb.sh, &tv, &target);
        }
        let key: &'static str = match op {
            "add_from" => "op:add_from",
            "add_from_with_gain" => "op:add_from_with_gain",
            "apply_gain" => "op:apply_gain",
            "apply_gain_value" => "op:apply_gain_value",
            "duplicate_channel" => "op:duplicate_channel",
            "fill_from_interleaved" => "op:fill_from_interleaved",
            "sample_rate_convert" => "op:sample_rate_convert",
            _ => "op:others",
        };
        c.count(key, 1);
        for (i, b) in bufs.iter_mut().enumerate() {
            let (r, a) = if i == t { (rel, abs) } else { (0.0, 0.0) };
            same(&b.buf, &b.sh, r, a, &format!("after {op} on {} buffer {t}, buffer {i}", if tv.slices.is_empty() { "" } else { "a slice of" }))?;
            c.count("samples_compared", b.sh.len() * b.sh[0].len());
            if i == t {
                for k in 0..b.sh.len() {
                    let d = b.buf.get_channel_data(SampleLocation::channel(k));
                    b.sh[k].copy_from_slice(d);
                }
            }
        }
    }
    c.nontrivial = nested && between;
    Ok(())
}

/// Operations that only read, or make a new buffer.
fn read_only(c: &mut Case, b: &B, v: &View, want: &Shadow, other_sr: usize) -> Res {
    let mut r: Res = Ok(());
    let which = c.rng.below(9);
    let slices = v.slices.clone();
    with_ref(&b.buf, &slices, &mut |x| {
        r = read_one(c, x, b.sr, v, want, which, other_sr);
    });
    r.clone()?;
    // the same through a mutable slice
    if c.rng.chance(0.3) {
        let mut copy = b.buf.clone();
        with_mut(&mut copy, &slices, &mut |x| {
            r = read_one(c, x, b.sr, v, want, which, other_sr);
        });
        r?;
        same(&copy, &b.sh, 0.0, 0.0, "after reading")?;
    }
    Ok(())
}

fn read_one(c: &mut Case, x: &dyn AudioBuffer, sr: usize, v: &View, want: &Shadow, which: usize, _o: usize) -> Res {
    if x.sample_rate() != sr {
        return fail("shape", format!("sample rate {} instead of {sr}", x.sample_rate()));
    }
    let secs = v.n as f64 / sr as f64;
    if (x.length_in_seconds() - secs).abs() > 1e-9 || (x.duration().as_secs_f64() - secs).abs() > 1e-6 {
        return fail("length", format!("{} s instead of {secs}", x.length_in_seconds()));
    }
    same(x, want, 0.0, 0.0, "reading a view")?;
    match which {
        0 => {
            c.count("op:copy_to_interleaved", 1);
            let ich = c.rng.range(0, v.ch + 2);
            let ifr = c.rng.range(0, v.n + 3);
            let extra = c.rng.below(3);
            let before: Vec<f32> = (0..ich * ifr + extra).map(|_| c.rng.sample()).collect();
            let mut data = before.clone();
            x.copy_to_interleaved(&mut data, ich, ifr);
            let mut w = before;
            for q in 0..ich.min(v.ch) {
                for i in 0..ifr.min(v.n) {
                    w[i * ich + q] = want[q][i];
                }
            }
            if let Some(i) = first_diff(&data, &w, 0.0, 0.0) {
                return fail("interleaved", format!("copy_to_interleaved({ich} channels, {ifr} frames) of a {}x{} buffer: sample {i} is {} instead of {}", v.ch, v.n, data[i], w[i]));
            }
        }
        1 => {
            let got: Vec<(usize, usize)> = x.frame_iter().map(|l| (l.channel, l.frame)).collect();
            let w: Vec<(usize, usize)> = (0..v.ch).flat_map(|q| (0..v.n).map(move |i| (q, i))).collect();
            if got != w {
                return fail("frame-iter", format!("frame_iter of a {}x{} buffer visits {} samples or another order", v.ch, v.n, got.len()));
            }
        }
        2 => {
            for q in 0..v.ch {
                let silent = want[q].iter().all(|x| *x == 0.0);
                if x.channel_is_silent(q) != silent {
                    return fail("silence", format!("channel_is_silent is {} for a channel that is silent: {silent}", !silent));
                }
            }
            // one sample only, anywhere
            if v.n > 0 {
                let mut one = OwnedAudioBuffer::new(v.n, 2, sr);
                let i = c.rng.below(v.n);
                one.set_sample(SampleLocation::new(1, i), 1e-30);
                if !one.channel_is_silent(0) || one.channel_is_silent(1) {
                    return fail("silence", format!("channel_is_silent misses or invents a sample at {i} of {}", v.n));
                }
            }
        }
        3 => same(&OwnedAudioBuffer::from_buffer(x), want, 0.0, 0.0, "from_buffer")?,
        4 => {
            c.count("op:padded", 1);
            let own = OwnedAudioBuffer::from_buffer(x);
            let extra = c.rng.below(40);
            let p = own.padded_to_length(v.n + extra);
            let mut w = want.clone();
            w.iter_mut().for_each(|d| d.resize(v.n + extra, 0.0));
            same(&p, &w, 0.0, 0.0, "padded_to_length")?;
        }
        5 => {
            c.count("op:extended", 1);
            let own = OwnedAudioBuffer::from_buffer(x);
            let n = c.rng.below(40);
            let mut more = OwnedAudioBuffer::new(n, v.ch, sr);
            let mut w = want.clone();
            for q in 0..v.ch {
                for i in 0..n {
                    let s = c.rng.sample();
                    more.set_sample(SampleLocation::new(q, i), s);
                    w[q].push(s);
                }
            }
            same(&own.extended_with_buffer(&more), &w, 0.0, 0.0, "extended_with_buffer")?;
            let mut w2: Shadow = (0..v.ch).map(|q| w[q][v.n..].to_vec()).collect();
            for q in 0..v.ch {
                w2[q].extend_from_slice(&want[q]);
            }
            same(&more.extended_with_buffer(x), &w2, 0.0, 0.0, "extended_with_buffer (slice)")?;
        }
        6 => {
            c.count("op:from_slice", 1);
            let ch = c.rng.range(1, 4);
            let data: Vec<f32> = (0..c.rng.range(0, 50)).map(|_| c.rng.sample()).collect();
            let w = vec![data.clone(); ch];
            same(&OwnedAudioBuffer::from_slice(&data, ch, sr), &w, 0.0, 0.0, &format!("from_slice with {ch} channels"))?;
        }
        7 => {
            let (n, ch) = (c.rng.range(1, 100), c.rng.range(1, 4));
            let (f, a) = (c.rng.uniform(0.0, sr as f64 / 2.0), c.rng.uniform(0.0, 2.0));
            let one: Vec<f32> = (0..n).map(|i| (a * (std::f64::consts::TAU * f * i as f64 / sr as f64).sin()) as f32).collect();
            same(&OwnedAudioBuffer::sine(n, ch, sr, f, a), &vec![one; ch], 0.0, 1e-5, "sine")?;
            let lo = c.rng.range(0, n);
            let hi = c.rng.range(lo, n + 5);
            let one: Vec<f32> = (0..n).map(|i| (i >= lo && i < hi) as u32 as f32).collect();
            same(&OwnedAudioBuffer::step(n, ch, sr, lo..hi), &vec![one; ch], 0.0, 0.0, "step")?;
            let w = OwnedAudioBuffer::white_noise(n, ch, sr);
            for l in w.frame_iter() {
                if !(w.get_sample(l).abs() <= 1.0) {
                    return fail("noise", format!("white noise sample {}", w.get_sample(l)));
                }
            }
            if w.frame_count() != n || w.channel_count() != ch {
                return fail("shape", "white_noise has the wrong shape".into());
            }
        }
        _ => {
            for _ in 0..4 {
                let (a, b) = (c.rng.range(0, v.ch + 1), c.rng.range(0, v.ch + 1));
                let (f, g) = (c.rng.range(0, v.n + 1), c.rng.range(0, v.n + 1));
                let ok = a + b <= v.ch && f + g <= v.n;
                if x.range_is_valid(&SampleRange::new(a, f, b, g)) != ok {
                    return fail("range", format!("range_is_valid({a},{f},{b},{g}) of {}x{} is {}", v.ch, v.n, !ok));
                }
            }
            if v.ch > 0 && v.n > 0 {
                let l = SampleLocation::new(c.rng.below(v.ch), c.rng.below(v.n));
                if x.get_sample(l).to_bits() != want[l.channel][l.frame].to_bits() {
                    return fail("samples", "get_sample".into());
                }
                let d = x.get_channel_data(l);
                if d != &want[l.channel][l.frame..] {
                    return fail("samples", "get_channel_data at an offset".into());
                }
            }
        }
    }
    Ok(())
}
