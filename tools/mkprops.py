#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are kept here as Python for readability)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
I = "include/"
H = I + "hart_process_audio.hpp"
D = I + "dsp/hart_dsp.hpp"
E_ = I + "envelopes/hart_segmentedenvelope.hpp"
S = I + "signals/hart_signal.hpp"

prop("C01", "Audio check verdicts are exact and independent",
 "In one audio test, every expectTrue/expectFalse check yields exactly one recorded failure when the matcher's verdict over the whole output differs from the requested one, and none otherwise, whatever the block size, the other checks, their order and their outcomes. A failing assertTrue/assertFalse ends the test with a test-assertion failure and stops further checking; an assert that holds never does. Every matcher sees each output frame at most once, in order, without gaps, and a matcher that needs the full signal gets it in one piece.",
 ["inputs", "configurations", "programs"], "every list of checks (level x polarity x per-block/full-signal matcher x failure position), every block size and duration",
 "The tests only contain checks that pass, one or two per run, at the default block size; a swallowed, duplicated or shifted failure is invisible to them.",
 [H, I + "matchers/hart_matcher.hpp", I + "hart_expectation_failure_messages.hpp"],
 [("check grouping and evaluation", H + " addCheck/processChecks"), ("block loop", H + " process()")],
 [("perBlockChecks/fullSignalChecks", "checks split by evaluation mode", H)], ["matcher callbacks", "recorded expectation messages", "exception leaving process()"])

prop("C02", "The whole input is streamed through the tested DSP exactly once",
 "process() renders round(sample rate x duration) frames of the input signal, each frame exactly once and in order, and feeds them to the tested DSP in blocks of exactly the configured block size except a shorter last one, with the configured channel counts and equal input/output lengths. The audio that is checked, saved and plotted is exactly the concatenation of what the DSP produced for those blocks.",
 ["inputs", "configurations"], "every sample rate, duration, block size, channel layout and DSP chain",
 "The tests use 1024-frame blocks at 44.1 kHz almost everywhere and peak/tolerance checks that a lost or repeated block can satisfy.",
 [H, I + "hart_audio_buffer.hpp", S], [("block loop", H + " process()"), ("accumulation of blocks", I + "hart_audio_buffer.hpp appendFrom()")],
 [("offsetFrames", "frames rendered so far", H)], ["DSP/Signal/Matcher callbacks", "saved files"])

prop("C03", "Host lifecycle protocol for DSPs, signals and matchers",
 "Before any audio reaches it in a run, every hosted object (tested DSP, signals, effects in chains, matchers) has been reset and prepared with the test's sample rate, its channel counts and a maximum block size no later block exceeds; DSPs and signals are asked whether they support the sample rate and channel layout before they are prepared and never receive audio in a configuration they rejected, which is reported as an error instead. Every value given to withValue() is handed to the tested DSP before its first block, after its reset, in the order given.",
 ["configurations", "histories", "programs"], "every host configuration, every capability answer, every list of values, repeated runs",
 "The tests use only stock components, which accept everything and ignore prepare(); the documented callback guarantees are never observed.",
 [H, D, S, I + "matchers/hart_equalsto.hpp"], [("run set-up", H + " process()"), ("chain preparation", S + " prepareWithDSPChain()"), ("reference preparation", I + "matchers/hart_equalsto.hpp prepare()")],
 (), ["DSP/Signal/Matcher callbacks"])

prop("C04", "Segmented envelopes follow their declared curve sample-accurately",
 "A segmented envelope produces at frame k (from its start) the value of its declared curve at time (k+1)/sample rate: start value, holds, and linear, s-curve or exponential ramps in the order added, each from the previous end value, then the last value forever. This holds at every sample rate and does not depend on how rendering is split into blocks, on copies, or on earlier use before a reset.",
 ["inputs", "histories"], "every segment list (also empty, zero-length or sub-frame segments), sample rate, block partition, reset/copy history",
 "The regression test compares three fixed envelopes at one sample rate, one block size, first use only.",
 [E_, I + "envelopes/hart_envelope.hpp", D], [("segment advance", E_ + " advance()"), ("restart", E_ + " reset()"), ("sample rate", E_ + " prepare()")],
 [("m_currentSegmentIndex/m_currentTimeSeconds/m_beginValue", "position on the curve", E_)], ["renderNextBlock() values"])

prop("C05", "Automation attachment and delivery",
 "A DSP accepts an envelope only for parameters it supports envelopes for (otherwise an error, nothing attached), and the last envelope attached to a parameter replaces earlier ones. Each processed block delivers exactly one value sequence per attached parameter and nothing else, as long as the audio block and continuing the envelope's curve from the previous block at the host's sample rate. Copying or assigning a DSP deep-copies exactly the source's envelopes, moving transfers them, and the objects are independent afterwards.",
 ["histories", "inputs", "programs"], "every sequence of attach/copy/assign/move operations on DSP objects, every block partition and sample rate",
 "The tests attach one envelope to a fresh effect and render at 44.1 kHz in default blocks; copies, re-attachment, several parameters and partial blocks are never observed.",
 [D, I + "dsp/hart_gaindb.hpp", I + "dsp/hart_gainlinear.hpp"], [("attachment", D + " withEnvelope()"), ("copy/move", D + " constructors and assignments"), ("delivery", D + " prepareWithEnvelopes()/processWithEnvelopes()")],
 [("m_envelopes", "attached envelopes by parameter", D), ("m_envelopeBuffers", "values for the current block", D)], ["DSP::process() envelope buffers"])

prop("C06", "Runs start from the initial state: re-use gives identical audio",
 "Every run of an audio test, and every reset of a signal with its effects, starts signals, effects, automation envelopes and matcher references from their initial state, so running again with the same (returned, copied or previously advanced) objects and configuration produces identical audio and identical verdicts. A DSP or signal passed by reference or copied is unaffected by the run, and a DSP transferred by smart pointer is the very object that is used and returned.",
 ["histories"], "every sequence of runs, renders, resets and copies of the same objects",
 "The only re-use test runs a stateless gain twice.",
 [H, S, D, E_, I + "signals/hart_sine_sweep.hpp", I + "signals/hart_whitenoise.hpp", I + "signals/hart_wavfile.hpp", I + "signals/hart_sinewave.hpp"],
 [("run start", H + " process()"), ("chain reset", S + " resetWithDSPChain()"), ("component resets", "reset() of each signal/envelope"), ("ownership", H + " constructors, return of process()")],
 (), ["audio of consecutive runs", "identity of the returned object"])

prop("C07", "Signal effect chains: order, completeness, independence",
 "A signal with effects produces its own audio passed through every attached effect exactly once per block, in the order attached, however they were attached (copied, moved or transferred), and describes itself in that order. Copying a signal copies its whole chain, moving transfers it, and later changes or renders of one object never affect another.",
 ["programs", "histories"], "every sequence of append/copy/move/assign/render operations on signals and chains of any length",
 "Tests use chains of one stock effect type at a time whose copies are interchangeable, and never touch a copied signal afterwards.",
 [S], [("append", S + " followedBy()/operator>>"), ("render", S + " renderNextBlockWithDSPChain()"), ("copy/move", S + " constructors and assignments")],
 [("dspChain", "ordered effects owned by the signal", S)], ["rendered audio", "text representation"])

prop("C08", "Stock effects compute their documented function",
 "GainDb and GainLinear multiply every sample by the current gain (fixed, or the automation value of exactly that frame), n-to-n per channel or mono-to-n by duplication, and reject other layouts; HardClip limits every sample to +/- threshold and leaves samples within it unchanged, n-to-n only. Set values take effect, are read back, unknown parameters change nothing, and results do not depend on the block size or on processing in place.",
 ["inputs", "configurations"], "every gain/threshold (also -inf dB), sample, channel layout, block partition, envelope, parameter id",
 "Tests look at peaks of a mono sine with five gain and four threshold values and never use more than one channel of input except at 0..-3 dB.",
 [I + "dsp/hart_gaindb.hpp", I + "dsp/hart_gainlinear.hpp", I + "dsp/hart_hardclip.hpp", I + "hart_utils.hpp"], [("processing", "process() of each effect"), ("conversion", I + "hart_utils.hpp decibelsToRatio()/ratioToDecibels()")],
 (), ["DSP::process() output", "getValue()"])

prop("C09", "Generators produce their declared waveform continuously",
 "SineWave, SineSweep, WhiteNoise and Silence produce the declared waveform (frequency, initial phase, linear/log sweep law, looping up-and-down or silence after the end, seed-determined noise within +/-1) as one continuous stream: the audio does not depend on how it is split into blocks and continues identically in copies. Tonal signals are identical on all channels, and two noise signals with the same seed are identical while different seeds differ.",
 ["inputs", "histories"], "every parameter choice, sample rate, channel count, block partition, copy/reset history",
 "Tests check peaks and a few (in)equalities between two renderings that share the same code and block size.",
 [I + "signals/hart_sinewave.hpp", I + "signals/hart_sine_sweep.hpp", I + "signals/hart_whitenoise.hpp", I + "signals/hart_silence.hpp", I + "hart_utils.hpp"],
 [("phase accumulation", "renderNextBlock() of SineWave/SineSweep"), ("sweep turn-around", I + "signals/hart_sine_sweep.hpp renderNextBlock()"), ("RNG", I + "signals/hart_whitenoise.hpp")],
 (), ["renderNextBlock() output"])

prop("C10", "WavFile plays the file's frames exactly",
 "A WavFile signal outputs the file's frames unchanged, per channel, in order from the first frame, then silence, or when looping starts over from the first frame without a gap, for every block partition and independently in every copy. It can fill as many channels as the file has or fewer (the first ones), and asking for more channels or another sample rate is reported as an error before any audio is produced.",
 ["inputs", "histories", "configurations"], "every file length/channel count/format, loop mode, block partition, reset/copy history",
 "Tests read mono files once, not looped, with the file longer than the test.",
 [I + "signals/hart_wavfile.hpp"], [("playback position", I + "signals/hart_wavfile.hpp renderNextBlock()"), ("capability checks", I + "signals/hart_wavfile.hpp supportsNumChannels()/prepare()")],
 [("m_wavOffsetFrames", "next frame to play", I + "signals/hart_wavfile.hpp")], ["renderNextBlock() output"])

prop("C11", "Saved wav files contain exactly the audio",
 "A wav file written by the library has the requested format, the audio's channel count, frame count and sample rate, and stores every sample at its frame and channel as the nearest code of that format (full scale being the largest positive code), clipped to full scale for integer formats and unclipped for float. Reading it back as a signal reproduces the (clipped) audio within two quantisation steps.",
 ["inputs", "configurations"], "every buffer shape and content (also beyond full scale), format and sample rate",
 "No test inspects a written file; the writer only runs for failing tests and generators.",
 [I + "hart_wavwriter.hpp", I + "hart_wavformat.hpp", H], [("encoding", I + "hart_wavwriter.hpp writeBuffer()")], (), ["bytes of the written file"])

prop("C12", "Files are saved when, where and only when requested",
 "An output wav or plot is written by a test exactly when its mode is 'always', or is 'when fails' and at least one check (expect or assert, per-block or full-signal) of that run failed; otherwise no file is created or changed. It goes to exactly the given absolute path, or to the given path below the data root, and holds the complete output audio of that run; a path that cannot be written is reported as an error, never silently ignored.",
 ["configurations", "programs", "fault_sequences"], "every save mode x check outcome x path kind, unwritable locations",
 "Every test that requests a file passes in 'when fails' mode, so no file is ever written.",
 [H, I + "hart_utils.hpp", I + "hart_plot.hpp", I + "hart_wavwriter.hpp"], [("save decision", H + " end of process()"), ("path resolution", I + "hart_utils.hpp toAbsolutePath()")],
 (), ["file system after process()"])

prop("C13", "Stock matchers decide their documented condition",
 "EqualsTo passes exactly when every frame of every channel is within the tolerance of the reference signal at the same stream position (NaN never matches); PeaksAt passes exactly when the largest absolute sample over all channels is within tolerance of the target, and PeaksBelow exactly when no absolute sample exceeds threshold plus tolerance. After a failure they report the channel and frame (within the given audio) of an offending sample - the first one in channel, then frame order for EqualsTo and PeaksBelow, the peak for PeaksAt.",
 ["inputs", "histories"], "every audio content incl. NaN/inf, tolerance, block partition, channel count, reset/copy history",
 "Tests use matchers that pass on mono sines; sensitivity of the matchers on other channels, positions, tolerances and after failure is not tested.",
 [I + "matchers/hart_equalsto.hpp", I + "matchers/hart_peaksat.hpp", I + "matchers/hart_peaksbelow.hpp", I + "hart_utils.hpp"], [("comparison", "match() of each matcher")],
 (), ["match() result", "getFailureDetails()"])

prop("C14", "Failure reports identify what failed and where",
 "Every failure report names the kind of check (expect/assert, True/False), the test's label if set, and the matcher's description; for non-inverted checks it also gives the offending channel and frame as reported by the matcher, the time of that frame from the start of the test, the sample value there and the matcher's explanation. Descriptions of signals, effects and matchers show the arguments they were built with, using the configured numbers of decimals.",
 ["inputs", "configurations"], "every failing check, position, block size, sample rate, label and decimals setting",
 "No test in the suite fails, so no report is ever produced or compared.",
 [H, I + "hart_precision.hpp", I + "matchers/hart_equalsto.hpp", I + "matchers/hart_peaksat.hpp", I + "matchers/hart_peaksbelow.hpp", S], [("report", H + " processChecks()/appendFailureDetails()"), ("descriptions", "represent() of each component")],
 (), ["recorded messages", "exception text"])

prop("C15", "The runner runs every selected task once and tells the truth",
 "The runner executes every registered test (or, when asked for, every generator, never both) exactly once, in registration order or in a seed-determined permutation when shuffling, whatever earlier tasks did, including failing, throwing any exception or leaving failures recorded. A task is reported failed, with all of its own failure messages and nobody else's, exactly when an assertion failed, an expectation failed or an exception escaped it; totals add up and the exit status is 0 exactly when nothing failed. Registering two tasks of the same category under one name is rejected.",
 ["programs", "configurations", "histories"], "every set of tasks and task outcomes, category, shuffle flag and seed",
 "The suite's own run has only passing tests in one fixed order.",
 [I + "hart_test_registry.hpp", I + "hart.hpp", I + "hart_cliconfig.hpp", I + "hart_expectation_failure_messages.hpp"], [("run loop", I + "hart_test_registry.hpp runAll()/runTask()/add()"), ("macros", I + "hart.hpp")],
 [("ExpectationFailureMessages", "failures of the current task", I + "hart_expectation_failure_messages.hpp")], ["task bodies executed", "console output", "exit status"])

prop("C16", "Audio buffers behave as independent channel-by-frame arrays",
 "An audio buffer is a fixed number of channels of equally many samples, initially zero: writes change only the addressed sample, copies are deep and independent, moves transfer the content and leave an empty buffer with the same channel count, and appending adds the other buffer's frames at the end of every channel. Assigning or appending a buffer with another channel count, and asking for the magnitude of an invalid channel or range, is rejected with an error and changes nothing; a valid magnitude is the largest absolute sample in exactly that range.",
 ["histories", "inputs"], "every sequence of buffer operations on several buffers of any shape",
 "Buffers are only exercised indirectly, by copying equal-sized mono blocks forward.",
 [I + "hart_audio_buffer.hpp"], [("storage", I + "hart_audio_buffer.hpp")], [("m_frames/m_channelPointers", "flat storage and channel starts", I + "hart_audio_buffer.hpp")], ["public accessors"])

prop("C17", "Test configuration is validated, order-independent, last-wins",
 "Each invalid setting (non-positive or unsupported sample rate, zero block size, zero or more than 128 channels, negative duration) is rejected with its documented error and leaves the configuration as it was; a run with nothing to process or without an input signal is an error and runs nothing. Otherwise the run uses, for every setting, the last valid value given, or the documented default, regardless of the order in which settings are made.",
 ["configurations", "programs"], "every sequence of builder calls with valid and invalid values",
 "Tests set at most a few valid values, always in a similar order.",
 [H], [("setters", H + " with...()/in...() methods"), ("run guards", H + " process()")], (), ["exceptions", "configuration seen by DSP/signal callbacks"])

prop("C18", "Saved plots show the input and output waveforms truthfully",
 "A saved plot of a test of at least two frames of finite audio draws one line per input channel and one per output channel (also when they are silent), each starting at time zero and spanning the whole test, whose value at every frame's time is that frame's sample.",
 ["inputs", "configurations"], "every channel count, length, sample rate and audio content",
 "No test saves a plot.",
 [I + "hart_plot.hpp", H], [("plotting", I + "hart_plot.hpp plotData()")], (), ["written SVG file"])

prop("C19", "Randomness and options come only from the command line",
 "Everything random is a function of the seed: the default seed of noise signals and the shuffle order follow --seed (default 0), an explicitly seeded noise does not, and two executions of the same program with the same options produce the same task order, audio and verdicts. The data root, the numbers of decimals and the choice of tests or generators follow their options, with the documented defaults otherwise.",
 ["configurations", "histories"], "every combination of command line options, repeated executions",
 "The suite is run with one command line.",
 [I + "hart_cliconfig.hpp", I + "signals/hart_whitenoise.hpp", I + "hart_test_registry.hpp", I + "hart_precision.hpp", I + "hart_utils.hpp"], [("options", I + "hart_cliconfig.hpp"), ("seed use", I + "signals/hart_whitenoise.hpp, " + I + "hart_test_registry.hpp shuffleTasks()")],
 (), ["console output", "noise samples", "paths of saved files"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
