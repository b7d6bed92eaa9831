#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})

prop("C01", "Transport: start, stop, time and silence",
 "Before start and after stop, every process call overwrites its whole output with silence and the context time does not move; while started, each call advances the context time by exactly the frames it rendered (time = rendered frames / sample rate, to timestamp resolution, with no accumulated drift) and renders with all commands issued before the call in effect, in the order they were issued. The output buffer is completely overwritten by every call: nothing that was in it, nor anything in channels or frames the graph does not feed, survives, whatever its size and channel count.",
 ["histories", "inputs", "configurations"],
 "All interleavings of start/stop/process/graph commands, all sample rates, host block sizes (including 0, 1 and larger than the engine's maximum), channel counts below and above the engine maximum, dirty output buffers.",
 "No unit test drives the public engine through start/stop histories or checks current_time; the four integration tests start once and process one or two blocks.",
 ["src/realtime/processor.rs", "src/engine/root.rs", "src/utility/timestamp.rs"],
 [("Processor::process / process_commands / update_position", "src/realtime/processor.rs"), ("Root::current_time", "src/engine/root.rs")],
 state=[("frame_position", "frames rendered since creation", "Processor"), ("current_time", "shared raw timestamp", "Processor/Root")],
 observe=["output buffer of AudioProcess::process", "Context::current_time"])

prop("C02", "Rendering does not depend on how the audio is split into blocks",
 "For any graph, input and schedule of events and parameter changes, the rendered samples are the same (up to floating-point rounding of the FFT and filters) whatever host block sizes the render is cut into and whatever maximum block size the engine was created with. Control calls made between two process calls at the same frame position have the same effect in every partition that has a boundary there.",
 ["inputs", "histories", "configurations"],
 "All node types and graphs of them, all partitions of the timeline into process calls of 1..N frames, all maximum frame counts, all event times off the sample grid.",
 "Tests render with one block size each; a state-carry bug at a block boundary shows only for particular alignments of events and boundaries.",
 ["src/realtime/processor.rs", "src/realtime/dsp_graph.rs", "src/parameter/realtime_parameter.rs", "src/effects"],
 [("Processor::process_graph sub-block loop", "src/realtime/processor.rs"), ("per-processor state carried between calls", "src/effects/*/*_processor.rs"), ("EventProcessor::next_event", "src/effects/utility/event_processor.rs")],
 observe=["concatenated output of AudioProcess::process for two partitions of the same timeline"])

prop("C03", "Graph routing delivers exactly the connected signals",
 "In any acyclic graph, each node's input in every block is exactly the sum, over its incoming connections, of the connected channels of the source node's output of the same block (each connection's source channel range mapped to its destination channel range and nothing else), plus the engine input if the node is connected to it; input channels that nothing feeds are silent. The engine output is exactly the output of the node last connected to it. No sample of an earlier block, of another node or of an unconnected channel ever leaks into any of these.",
 ["programs", "inputs", "configurations"],
 "All acyclic graphs of up to dozens of nodes with arbitrary channel counts, channel offsets, parallel connections, fan-in and fan-out, in every creation order; engine input and output on any node.",
 "dsp_graph unit tests route single chains; one test covers one channel offset. Parallel connections, fan-in with offsets and buffer reuse across nodes and blocks are not sampled.",
 ["src/realtime/dsp_graph.rs", "src/realtime/graph.rs", "src/realtime/topological_sort.rs", "src/graph/assigned_buffer_pool.rs", "src/buffer/buffer_pool.rs", "src/graph/graph_node.rs"],
 [("topological order", "src/realtime/topological_sort.rs"), ("prepare_input / copy_output_from_dependencies / mix_endpoint", "src/realtime/dsp_graph.rs"), ("buffer pools cleared on return", "src/buffer/buffer_pool.rs")],
 state=[("assigned/free buffer pools", "which buffer holds which endpoint's samples in this block", "DspGraph")],
 observe=["input buffer seen by probe nodes", "engine output"],
 hook="probe nodes: re-export of the processor trait, parameter container and node id")

prop("C04", "Graph edits while running leave exactly the edited graph",
 "After any history of creating, connecting, disconnecting, reconnecting and dropping nodes, in any order and interleaved with rendering, the engine renders exactly what an engine freshly built with the surviving nodes and connections would render from there on. Dropping a node removes all its connections; disconnecting two nodes removes every connection from the first to the second and no other; no such history makes the engine panic, hang or lose other nodes' state.",
 ["histories", "programs"],
 "All histories of graph edits (hundreds of steps, including dropping still-connected nodes and repeated connections) interleaved with process calls.",
 "Graph unit tests perform a handful of fixed edit sequences on the bare data structure; no test edits a running engine.",
 ["src/realtime/graph.rs", "src/realtime/dsp_graph.rs", "src/realtime/topological_sort.rs", "src/graph/graph_node.rs"],
 [("edge lists next_in/next_out", "src/realtime/graph.rs"), ("remove_dsp / remove_connection / resort", "src/realtime/dsp_graph.rs"), ("GraphNode::drop", "src/graph/graph_node.rs")],
 state=[("incoming/outgoing edge lists", "linked lists of connections per node", "realtime::graph::Graph")],
 observe=["engine output after each edit", "inputs seen by probe nodes"],
 hook="probe nodes (see C03)")

prop("C05", "Parameter automation follows its schedule",
 "A parameter holds its value until a change is due: a set takes effect at the first sample at or after its time (immediately if that time has passed, all due changes at once, in time order), a linear or exponential ramp moves from the value at its start time to its target along that curve and holds the target from its end time on, and values are clamped to the parameter's range when requested (for changes whose time windows do not overlap). Cancelling removes exactly the not-yet-started changes it names (all, or those that would complete after the given time); the value reported to the control side after a block is the value at the end of that block.",
 ["inputs", "histories"],
 "All sets of non-overlapping changes, submitted in any order, early or late, with values inside and outside the range, at any times, over any block sizes, with cancels at any point.",
 "Unit tests check three fixed schedules with tolerance 1e-3 and never cancel by time, submit late or out of order.",
 ["src/parameter/realtime_parameter.rs", "src/parameter/audio_parameter.rs", "src/parameter/parameter_range.rs", "src/graph/dsp.rs"],
 [("RealtimeAudioParameter::process/value_at_time", "src/parameter/realtime_parameter.rs"), ("AudioParameter command senders", "src/parameter/audio_parameter.rs")],
 state=[("parameter_changes", "pending changes sorted by time", "RealtimeAudioParameter"), ("current_change", "change in progress", "RealtimeAudioParameter")],
 observe=["output of a gain node fed with a constant", "AudioParameter::get_value"])

prop("C06", "Audio buffer operations touch exactly the samples they name",
 "Every audio buffer operation (copy, mix with and without gain, gain tables, clear, fill, duplicate, interleave, deinterleave, slice, pad, extend, resample, iterate, silence test) on owned buffers and on arbitrarily nested slices of them produces in each named sample the value of the plain per-sample definition and leaves every other sample of every buffer unchanged (resampling: linear interpolation between neighbouring frames, to single precision of the position). This holds for every alignment, length, channel count and offset, and a slice addresses exactly the requested channel and frame range of its parent.",
 ["inputs", "programs"],
 "All buffer shapes, frame offsets (all SIMD alignments), lengths 0..N, slice nestings, gains including 0, 1 and negative.",
 "Buffer unit tests use one shape each, mostly whole-buffer and aligned; vectorised paths branch on alignment and length.",
 ["src/buffer/audio_buffer.rs", "src/buffer/owned_audio_buffer.rs", "src/buffer/borrowed_audio_buffer.rs", "src/buffer/mutable_borrowed_audio_buffer.rs", "src/dsp/mod.rs"],
 [("AudioBuffer default methods", "src/buffer/audio_buffer.rs"), ("SIMD kernels with scalar head/tail", "src/dsp/mod.rs"), ("slice offset arithmetic", "src/buffer/*borrowed_audio_buffer.rs")],
 observe=["full contents of every buffer before and after each operation"],
 hook="re-export of the sample range type that some public buffer methods take")

prop("C07", "Sampler starts, stops and plays sample-accurately",
 "A sampler told to start at a time outputs its sample from the requested position beginning at exactly that frame, continuing without gaps or repeats at one source frame per output frame until the source ends; a start whose time has passed plays from where it would have been by now. A stop (or a restart, which also begins the new position) fades the playing voice out smoothly (raised cosine, from the level it has reached) over a fixed 50 ms and then it is silent; starts other than from the beginning fade in over the same window; every start is heard, even while two earlier voices are still fading (one of these then gives way); nothing sounds before the first start or after the fade, and cancelling discards every event not yet due and stops playback.",
 ["inputs", "histories"],
 "All sources, positions, start/stop/restart/cancel histories (also several restarts within one fade), times on any sub-sample offset, submission orders and block sizes.",
 "Sampler unit tests mostly run with the fade disabled and one event; voice hand-over and fades across block boundaries, late and out-of-order events are sampled once or not at all.",
 ["src/effects/sampler/sampler_processor.rs", "src/effects/sampler/sampler_voice.rs", "src/effects/sampler/sampler_fade.rs", "src/effects/sampler/sampler_event.rs", "src/effects/utility/event_processor.rs"],
 [("event queue split of the block", "src/effects/utility/event_processor.rs"), ("voice phases", "src/effects/sampler/sampler_voice.rs")],
 state=[("voices / active_voice", "playing and fading voices", "SamplerDspProcess")],
 observe=["engine output with the sampler connected to it"])

prop("C08", "Sampler loops stay in phase and end when told to",
 "While looping (between points at least one fade apart; an empty loop is ignored), playback that reaches the loop end continues at the loop start with no frame lost or added, so that after any number of loops the position is exactly what the loop length implies (also when the loop length is not a whole number of samples: no drift; a start late by whole loops joins in phase; new loop points apply from wherever playback is), each jump cross-fading over the fixed fade. Cancelling the loop lets playback run on to the end of the source; stopping a looping sampler silences it for good after the fade, and enabling a loop on a sampler that has not been started produces nothing.",
 ["inputs", "histories"],
 "All loop points of at least one fade length, enable/cancel/stop times anywhere relative to loop boundaries and blocks, hundreds of loops.",
 "Three unit tests loop with the fade disabled on block-aligned or single fixed lengths; none stops or cancels a running loop.",
 ["src/effects/sampler/sampler_processor.rs", "src/effects/sampler/sampler_voice.rs"],
 [("next_loop_position / completed_loops accounting", "src/effects/sampler/sampler_processor.rs"), ("assign_voice crossfade", "src/effects/sampler/sampler_processor.rs")],
 state=[("completed_loops, position, loop_points", "loop phase", "SamplerDspProcess")],
 observe=["engine output with the sampler connected to it"])

prop("C09", "ADSR envelope shape and timing",
 "The ADSR node multiplies all its channels by one envelope that is 0 until a note on, rises monotonically to exactly 1 in the attack time, falls monotonically to the sustain level in the decay time and holds it, and after a note off at any point falls monotonically to exactly 0 within the release time and stays there; it never leaves [0, 1]. Note events take effect at exactly their frame whatever order they are submitted in (same-time events in submission order), late ones immediately, and a retrigger rises from the current value without a jump.",
 ["inputs", "histories"],
 "All attack, decay, release times (including 0), sustain levels in [0,1] including both ends, note histories with any overlap, block sizes.",
 "Unit tests cover the bare envelope for one parameter set and never a note off before sustain, a zero sustain or event timing.",
 ["src/effects/adsr/adsr_envelope.rs", "src/effects/adsr/adsr_processor.rs", "src/effects/utility/event_processor.rs"],
 [("exponential segments with overshoot targets", "src/effects/adsr/adsr_envelope.rs"), ("per-event block split", "src/effects/adsr/adsr_processor.rs")],
 state=[("phase, envelope", "current segment and level", "AdsrEnvelope")],
 observe=["engine output with constant and with random input"])

prop("C10", "Recorder captures every input frame exactly once, in order",
 "The recording taken from a recorder is, sample for sample and channel for channel, the input presented to it from the frame recording started to the frame it was asked to stop, each frame exactly once and in order, however the audio was split into blocks, for any length and however often notifications are processed and recordings are taken, as long as they are processed regularly. The recording flag reported to the control side follows start and stop, and a second recording never contains frames of the first.",
 ["inputs", "histories", "schedules"],
 "All recording lengths (around multiples of the internal buffer), start/stop patterns, block sizes, drain schedules, channel counts; also with the audio running on its own thread.",
 "The integration test records once from time 0 with a single process call of at most a few blocks.",
 ["src/effects/recorder/recorder_processor.rs", "src/effects/recorder/recorder_node.rs", "src/buffer/buffer_pool.rs", "src/effects/utility/event_processor.rs"],
 [("buffer rotation through a bounded channel and pool", "src/effects/recorder/recorder_processor.rs"), ("append and return of buffers", "src/effects/recorder/recorder_node.rs")],
 state=[("current_buffer/current_position_in_buffer", "buffer being filled", "RecorderProcessor")],
 observe=["Recorder::take_recording", "Recorder::is_recording"])

prop("C11", "Envelope meter reports the true per-channel peaks at its rate",
 "An envelope node follows every channel's absolute input with the configured attack and release smoothing over every frame, and emits, once per notification interval, one notification per channel in channel order carrying the maximum of that channel's envelope since the previous notification. Notifications come at the configured average rate without drift however audio is split into blocks; if they are not collected, rendering goes on unimpeded.",
 ["inputs", "histories", "configurations"],
 "All channel counts, block sizes, notification rates (faster and slower than the block rate), attack/release times including 0, drained and undrained.",
 "Only the bare follower is unit-tested; the node, its rates and multi-channel operation have no test.",
 ["src/effects/envelope/envelope_processor.rs", "src/effects/envelope/envelope_node.rs", "src/effects/utility/envelope_follower.rs", "src/effects/utility/periodic_notification.rs"],
 [("interval-split frame loop", "src/effects/envelope/envelope_processor.rs"), ("PeriodicNotification", "src/effects/utility/periodic_notification.rs")],
 observe=["Envelope::take_notifications"])

prop("C12", "Mixer applies its gain matrix",
 "Each mixer output channel is exactly the sum over all inputs of input times the level set for that input-output pair (unset levels are zero), for every input and output count up to 8; the most recent levels set before a block apply to that whole block, any number of settings may be made between blocks, and the unity and splitter constructors are the corresponding matrices.",
 ["inputs", "histories", "configurations"],
 "All matrix shapes up to 8x8, all levels including 0, 1, negative and tiny, any number of level changes between blocks.",
 "One integration test checks one 1x2 and one unity matrix.",
 ["src/effects/mixer/mixer_matrix.rs", "src/effects/mixer/mixer_processor.rs", "src/effects/mixer/mixer_node.rs"],
 [("matrix index", "src/effects/mixer/mixer_matrix.rs"), ("latest matrix wins", "src/effects/mixer/mixer_processor.rs")],
 observe=["engine output with distinct per-channel inputs"])

prop("C13", "Gain and pan apply exactly their parameter per sample",
 "A gain node's output is its input times the gain parameter's value at each sample, on every channel, including zero, unity, negative, tiny and automated gains. A pan node passes both channels at full level in the centre and attenuates the left by 1-pan for positive pan and the right by 1+pan for negative pan, per sample, never exceeding unity and reaching exact silence on one side at the extremes.",
 ["inputs", "histories"],
 "All gains and pan trajectories, channel counts, inputs, block sizes and alignments.",
 "Tests check three constant gains and pan positions.",
 ["src/effects/gain/gain_processor.rs", "src/effects/pan/pan_processor.rs", "src/buffer/audio_buffer.rs"],
 [("apply_gain shortcuts and SIMD multiply", "src/buffer/audio_buffer.rs")],
 observe=["engine output vs input and the parameter schedule"])

prop("C14", "Oscillator produces its wavetable at the exact frequency",
 "An oscillator's output is the periodic, linearly interpolated reading of its wavetable at the phase accumulated from the frequency parameter sample by sample, times the gain parameter, identical on all channels: phase is continuous across blocks and frequency changes, the table wraps around seamlessly, and no frequency in range makes it read outside the table or lose phase. Sine and harmonic constructors give the sums of sines they name.",
 ["inputs", "histories", "configurations"],
 "All frequencies up to Nyquist including exact divisors of the sample rate, custom wavetables of any length over 2, automation of frequency and gain, long runs.",
 "No unit test covers the oscillator.",
 ["src/effects/oscillator/oscillator_processor.rs", "src/effects/oscillator/oscillator_node.rs"],
 [("phase accumulator and interpolation", "src/effects/oscillator/oscillator_processor.rs")],
 state=[("phase", "fraction of the table", "OscillatorProcessor")],
 observe=["engine output"])

prop("C15", "Biquad realises its documented response, stably",
 "A biquad node is the second-order filter of its type at the current frequency, Q, shelf gain and gain: its steady-state response to any sinusoid equals the standard cookbook response (pass bands at unity, -3 dB class corner set by Q, notch null, band-pass unity peak, shelves at the shelf gain), independently per channel with its state carried across blocks. For every parameter setting and trajectory within the documented ranges its output stays finite and decays to exact silence after the input ends, and every parameter accessor works.",
 ["inputs", "histories", "configurations"],
 "All six types, all parameters in range with frequency below Nyquist, sample rates, channel counts, inputs, and automation.",
 "Unit tests only compare coefficients to three hard-coded sets; nothing runs audio through the filter.",
 ["src/effects/biquad/biquad_coefficients.rs", "src/effects/biquad/biquad_processor.rs", "src/effects/biquad/biquad_node.rs"],
 [("coefficient formulas", "src/effects/biquad/biquad_coefficients.rs"), ("direct form delay lines per channel", "src/effects/biquad/biquad_processor.rs")],
 observe=["engine output for impulses, sinusoids and noise"])

prop("C16", "Compressor follows its static curve",
 "The compressor multiplies all channels by one gain derived from the average of the channels' envelopes: unity below the knee, the ratio's slope above it, and the quadratic knee joining both continuously in between; the output is wet times the compressed plus dry times the input signal. Gain reduction is never above unity, output level never decreases when input level increases, and no parameter in range yields a non-finite sample.",
 ["inputs", "histories", "configurations"],
 "All thresholds, ratios, knees (including 0 and exactly at the threshold), attack and release (including 0), wet/dry, channel counts and automation within range.",
 "Unit tests check gain for knee 0 at two levels.",
 ["src/effects/compressor/compressor_processor.rs", "src/effects/compressor/compressor_parameters.rs", "src/effects/utility/envelope_follower.rs"],
 [("calculate_gain_reduction", "src/effects/compressor/compressor_processor.rs")],
 observe=["engine output for stepped and random inputs"])

prop("C17", "Convolution equals direct convolution",
 "The convolution node outputs wet times the linear convolution of everything it has received with its impulse response, plus dry times the input, per channel, with no latency, wrap-around or truncation, for impulse lengths shorter and longer than the block and any sequence of block sizes.",
 ["inputs", "configurations"],
 "All impulse lengths and contents, channel counts, inputs, block partitions, maximum frame counts, wet/dry automation.",
 "Unit tests convolve a few impulses with constant block size.",
 ["src/effects/convolution/convolution_processor.rs"],
 [("overlap-save with a power-of-two FFT", "src/effects/convolution/convolution_processor.rs")],
 state=[("complex_input", "input history", "ConvolutionProcessor")],
 observe=["engine output vs direct O(nm) convolution"])

prop("C18", "Waveshaper applies its transfer function per sample",
 "The waveshaper's wet output is its shaping function, read from a table over [-1, 1] with interpolation and saturation beyond the ends, applied to the overdriven sample and scaled back, per sample and channel; mix blends it with the dry input; the built-in shapes are tanh, soft saturation and hard clipping at the requested threshold. Every threshold and overdrive in range yields finite output.",
 ["inputs", "configurations", "histories"],
 "All inputs including far outside [-1, 1], shapes and thresholds including 0 and 1, overdrive and mix automation, block sizes and channel counts.",
 "Unit tests check shape lookup on four-point tables only.",
 ["src/effects/waveshaper/shape.rs", "src/effects/waveshaper/waveshaper_processor.rs", "src/effects/waveshaper/waveshaper_node.rs", "src/buffer/audio_buffer.rs"],
 [("transfer table and interpolation", "src/effects/waveshaper/shape.rs"), ("oversample, shape, downsample", "src/effects/waveshaper/waveshaper_processor.rs")],
 observe=["engine output vs table model"])

prop("C19", "Rendering is real-time safe",
 "Once its pending commands are consumed, a process call performs no heap allocation or deallocation and never blocks or waits, whatever nodes, automations, scheduled events and notifications are active and whether or not the control side collects its notifications. Nodes dropped by the control side are torn down outside the audio thread.",
 ["histories", "configurations", "schedules"],
 "All node types and graphs, steady state and event-laden blocks, undrained notification queues, node removal while running.",
 "No test measures allocation or the disposing thread.",
 ["src/realtime/dsp_graph.rs", "src/realtime/garbage_collector.rs", "src/effects", "src/parameter/realtime_parameter.rs"],
 [("preallocated pools and queues", "src/realtime/dsp_graph.rs"), ("garbage collector thread", "src/realtime/garbage_collector.rs")],
 observe=["counting global allocator scoped to the audio thread", "thread that runs a probe processor's destructor"],
 hook="probe nodes (see C03)")

prop("C20", "Commands cross threads in order, exactly once, without loss",
 "With the control side and the audio process on different threads, each process call reflects every command whose issuing call returned before it began, none issued after it ended, each exactly once and in issue order (notes to one ADSR, levels of one mixer and requests to one recorder: in order among themselves); the time the control side reads never goes backwards and is never ahead of what has been rendered. Notifications from the audio side arrive complete and in order, and a recorder that says it has stopped has delivered its whole recording; there are no data races.",
 ["schedules", "histories"],
 "All interleavings of one control thread with one audio thread (and independent engines on other threads), with jitter on both sides.",
 "No test is multi-threaded.",
 ["src/engine/root.rs", "src/realtime/processor.rs", "src/parameter/audio_parameter.rs", "src/effects/mixer/mixer_node.rs", "src/effects/utility/event_processor.rs"],
 [("unbounded command channel drained at block start", "src/realtime/processor.rs"), ("release/acquire timestamp", "src/realtime/processor.rs")],
 observe=["timestamped call/return log of control operations against per-block output"])

prop("C21", "Timestamp and level conversions are exact and monotone",
 "Timestamps built from seconds, samples, beats or durations convert back within the fixed-point resolution, keep their order, and add, subtract and increment exactly; converting a level between linear and decibels round-trips within rounding over the representable range, is strictly monotone with silence at the bottom, and clamping returns the nearest bound.",
 ["inputs"],
 "All magnitudes (hours at 192 kHz), signs, rates, tempos and levels from silence to beyond +100 dB.",
 "Tests check a few round numbers.",
 ["src/utility/timestamp.rs", "src/utility/level.rs"],
 [("I32F32 fixed point", "src/utility/timestamp.rs"), ("as_db/from_db floor", "src/utility/level.rs")],
 observe=["return values"])

prop("C22", "Everything a user drops is released",
 "Dropping a node eventually destroys its processor exactly once, and returns everything the engine held for it: nodes and connections can be created and dropped without limit while rendering without exhausting the engine or growing its memory. Dropping the meter and recorder nodes removes their notifiers, and dropping the engine destroys all remaining processors and ends its background thread, in whatever order context, process and nodes are dropped.",
 ["histories", "schedules"],
 "All create/drop histories over thousands of nodes, and all drop orders of context, process and nodes.",
 "No test drops a node or an engine under observation.",
 ["src/realtime/dsp_graph.rs", "src/realtime/garbage_collector.rs", "src/graph/graph_node.rs", "src/engine/root.rs", "src/effects/envelope/envelope_node.rs", "src/effects/recorder/recorder_node.rs"],
 [("RemoveDsp on drop and garbage channel", "src/graph/graph_node.rs"), ("notifier retain", "src/engine/root.rs")],
 observe=["destructor counts of probe processors", "live heap bytes", "threads of the process"],
 hook="probe nodes (see C03)")

prop("C23", "No valid use panics, hangs or emits non-finite audio",
 "No sequence of documented API calls with arguments in their documented ranges (any nodes, connections without cycles, schedules, buffer sizes and sample rates, in any order) makes the control side or the audio process panic, loop forever or deadlock, and finite bounded input never produces a NaN or infinite output sample.",
 ["programs", "histories", "inputs", "configurations"],
 "Random programs over the whole public API with all node types.",
 "Tests exercise each node alone on benign settings.",
 ["src"],
 [("range clamps, clamped slices, denormal flush", "src/parameter/parameter_range.rs"), ("capacity limits", "src/realtime/dsp_graph.rs")],
 observe=["panics, progress watchdog, every output sample"])

prop("C24", "Rendering is deterministic and engines are isolated",
 "The same program of API calls and inputs renders bit-identical output every time it is run, regardless of what other engines exist or run concurrently in the process and of which nodes were created or destroyed before; nodes that are not connected, and other engines' nodes, never influence it.",
 ["programs", "schedules", "histories"],
 "All programs, repeated runs, concurrent engines.",
 "Nothing in the suite renders anything twice; iteration orders of hash maps vary from run to run.",
 ["src/realtime/topological_sort.rs", "src/realtime/dsp_graph.rs", "src/commands/id.rs", "src/graph/dsp_parameters.rs"],
 [("mix order given by connection lists", "src/realtime/graph.rs"), ("globally unique ids", "src/commands/id.rs")],
 observe=["bitwise comparison of the output of repeated and concurrent runs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
