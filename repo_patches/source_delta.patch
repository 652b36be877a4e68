From 0652496091f08e517ceab73509b8612b5c40f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:58 +0000
Subject: [PATCH 01/32] fix: attaching an envelope to a parameter again
 replaces the previous one

---
 include/dsp/hart_dsp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 8608d93..e3d478d 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, hart::make_unique<Envelope> (std::move (envelope)));
+        m_envelopes[paramId] = hart::make_unique<Envelope> (std::move (envelope));
         return *this;
     }
 
@@ -202,7 +202,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, envelope.copy());
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
-- 
2.43.0


From d0d72309fcd5796f1b91cecf36a04c32d208cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 02/32] fix: withEnvelope() compiles for temporary envelopes

---
 include/dsp/hart_dsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index e3d478d..38258e9 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes[paramId] = hart::make_unique<Envelope> (std::move (envelope));
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
-- 
2.43.0


From fa5bbf06649f91d97134effaa24de4777c00de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 03/32] fix: copy-assigning a DSP replaces its envelopes
 instead of keeping the old ones

---
 include/dsp/hart_dsp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 38258e9..032f192 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -156,6 +156,8 @@ public:
         if (this == &other)
             return *this;
 
+        m_envelopes.clear();
+
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
 
-- 
2.43.0


From ce1bc744de68103c7f625c0db17980e92b0007b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 04/32] fix: prepare automation envelopes with the host's
 sample rate

---
 include/dsp/hart_dsp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 032f192..1aed0e7 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -232,6 +232,7 @@ public:
         {
             const int paramId = item.first;
             m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));
+            item.second->prepare (sampleRateHz, maxBlockSizeFrames);
         }
 
         hassert (m_envelopes.size() == m_envelopeBuffers.size());
-- 
2.43.0


From ca219d3c02159c27bba1d9c41fd132c1375285d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 05/32] fix: SegmentedEnvelope::reset() restores the begin
 value of the first segment

---
 include/envelopes/hart_segmentedenvelope.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 0e56502..9aed5b1 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -62,6 +62,7 @@ public:
     {
         m_currentTimeSeconds = 0.0;
         m_currentSegmentIndex = 0;
+        m_beginValue = m_resetValue;
         m_currentValue = m_resetValue;
     }
 
-- 
2.43.0


From e710bbbc0c8392c824468c7f8e6bfa82b5addbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 06/32] fix: rendering a SegmentedEnvelope without segments
 does not read past its end

---
 include/envelopes/hart_segmentedenvelope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 9aed5b1..7136da9 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -189,7 +189,7 @@ private:
         }
 
         if (m_currentSegmentIndex >= m_segments.size())
-            m_currentValue = m_segments.back().targetValue;
+            m_currentValue = m_endValue;
     }
 };
 
-- 
2.43.0


From 41b2fb0496ed61e2f29f108abe181905cc762ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 07/32] fix: hosts restart automation envelopes when they reset
 a DSP

---
 include/dsp/hart_dsp.hpp        | 11 +++++++++++
 include/hart_process_audio.hpp  |  2 +-
 include/signals/hart_signal.hpp |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 1aed0e7..515d32f 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -253,6 +253,17 @@ public:
         prepare (sampleRateHz, numInputChannels, numOutputChannels, maxBlockSizeFrames);
     }
 
+    /// @brief Resets all the attached envelopes and the effect itself to initial state
+    /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder or @ref hart::Signal.
+    /// @attention If you're not making a custom host, you probably don't need to call this method.
+    void resetWithEnvelopes()
+    {
+        for (auto& item : m_envelopes)
+            item.second->reset();
+
+        reset();
+    }
+
     /// @brief Renders all the automation envelopes and processes the audio
     /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder @ref hart::Signal.
     /// If you're making something that owns an instance of a Signal and needs it to generate audio,
diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 162b0dc..83b973f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -352,7 +352,7 @@ public:
         }
 
         // TODO: Ckeck supportsChannelLayout() here
-        m_processor->reset();
+        m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
         for (const ParamValue& paramValue : paramValues)
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index f36a981..33f7b16 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -236,7 +236,7 @@ public:
         reset();
 
         for (auto& dsp : dspChain)
-            dsp->reset();
+            dsp->resetWithEnvelopes();
     }
 
     /// @brief Makes a text representation of this signal and its entire signal chain for test failure outputs.
-- 
2.43.0


From ff28a2ff09e6df6f7531c4146613795935a19ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 08/32] fix: envelopes deliver exactly one value per frame of
 each block

---
 include/dsp/hart_dsp.hpp    | 5 +++--
 include/dsp/hart_gaindb.hpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 515d32f..d24b819 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -281,9 +281,10 @@ public:
             // Sanity checks
             hassert (supportsEnvelopeFor (paramId) && "Envelope for this id is unsupported, yet there's an envelope buffer allocated for it");
             hassert (hasEnvelopeFor (paramId) && "Envelope for this param id is not attached, yet there's an envelope buffer allocated for it");
-            hassert (input.getNumFrames() <= envelopeBuffer.size() && "Envelope Buffers were not allocated properly for this buffer size");
+            hassert (input.getNumFrames() <= envelopeBuffer.capacity() && "Envelope Buffers were not allocated properly for this buffer size");
 
-            // Render envelope values
+            // Render exactly one envelope value per frame, the last audio block is often shorter than the others
+            envelopeBuffer.resize (input.getNumFrames());
             getValues (paramId, envelopeBuffer.size(), envelopeBuffer);
         }
         
diff --git a/include/dsp/hart_gaindb.hpp b/include/dsp/hart_gaindb.hpp
index 66f2a32..7c1277f 100644
--- a/include/dsp/hart_gaindb.hpp
+++ b/include/dsp/hart_gaindb.hpp
@@ -52,8 +52,8 @@ public:
         if (hasGainEnvelope)
         {
             auto& gainEnvelopeValuesDb = envelopeBuffers. at(Params::gainDb);
-            hassert (gainEnvelopeValuesDb.size() == m_gainEnvelopeValuesLinear.size());
-            
+            m_gainEnvelopeValuesLinear.resize (gainEnvelopeValuesDb.size());
+
             for (size_t i = 0; i < m_gainEnvelopeValuesLinear.size(); ++i)
                 m_gainEnvelopeValuesLinear[i] = decibelsToRatio (gainEnvelopeValuesDb[i]);
 
-- 
2.43.0


From 51c745cc28e5b95081ff37b9c0a13e375cc5b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 09/32] fix: full-signal checks are prepared for the size of
 the audio they receive

---
 include/hart_process_audio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 83b973f..40786d2 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -346,7 +346,8 @@ public:
 
         for (auto& check : fullSignalChecks)
         {
-            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);
+            // Those matchers receive the entire signal in one piece
+            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_durationFrames);
             check.matcher->reset();
             check.shouldSkip = false;
         }
-- 
2.43.0


From b50f37d8fd0e342ec80d4892040a19af3ab15d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 10/32] fix: a failed check does not hide the other checks of
 the same block

---
 include/hart_process_audio.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 40786d2..4d52e77 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -485,6 +485,8 @@ private:
 
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
+        bool allChecksPassed = true;
+
         for (auto& check : checksGroup)
         {
             if (check.shouldSkip)
@@ -534,11 +536,11 @@ private:
                 // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
-                return false;
+                allChecksPassed = false;
             }
         }
 
-        return true;
+        return allChecksPassed;
     }
 
     void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
-- 
2.43.0


From 7fcbcc5aa18b6598f9c879de9050ea6418c34f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 11/32] fix: timestamps of failed full-signal checks count from
 the start of the test

---
 include/hart_process_audio.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 4d52e77..09f38e3 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -384,7 +384,7 @@ public:
             m_inputSignal->renderNextBlockWithDSPChain (inputBlock);
             m_processor->processWithEnvelopes (inputBlock, outputBlock);
 
-            const bool allChecksPassed = processChecks (perBlockChecks, outputBlock);
+            const bool allChecksPassed = processChecks (perBlockChecks, outputBlock, offsetFrames);
             atLeastOneCheckFailed |= ! allChecksPassed;
             fullInputBuffer.appendFrom (inputBlock);
             fullOutputBuffer.appendFrom (outputBlock);
@@ -392,7 +392,7 @@ public:
             offsetFrames += blockSizeFrames;
         }
 
-        const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer);
+        const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer, 0);
         atLeastOneCheckFailed |= ! allChecksPassed;
 
         if (m_saveOutputMode == Save::always || (m_saveOutputMode == Save::whenFails && atLeastOneCheckFailed))
@@ -483,7 +483,7 @@ private:
         });
     }
 
-    bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
+    bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock, size_t blockStartFrame)
     {
         bool allChecksPassed = true;
 
@@ -513,7 +513,7 @@ private:
                     stream << std::endl << "Condition: " << *matcher;
 
                     if (check.shouldPass)
-                        appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock);
+                        appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock, blockStartFrame);
 
                     throw hart::TestAssertException (std::string (stream.str()));
                 }
@@ -528,7 +528,7 @@ private:
                     stream << std::endl << "Condition: " << * matcher;
 
                     if (check.shouldPass)
-                        appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock);
+                        appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock, blockStartFrame);
 
                     hart::ExpectationFailureMessages::get().emplace_back (stream.str());
                 }
@@ -543,9 +543,9 @@ private:
         return allChecksPassed;
     }
 
-    void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
+    void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock, size_t blockStartFrame)
     {
-        const double timestampSeconds = static_cast<double> (offsetFrames + details.frame) / m_sampleRateHz;
+        const double timestampSeconds = static_cast<double> (blockStartFrame + details.frame) / m_sampleRateHz;
         const SampleType sampleValue = observedAudioBlock[details.channel][details.frame];
 
         stream << std::endl
-- 
2.43.0


From 815c76a0b8f34e44f1914cddbea0e7e097799ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 12/32] fix: NaN samples do not satisfy matchers

---
 include/matchers/hart_equalsto.hpp   | 2 +-
 include/matchers/hart_peaksat.hpp    | 5 +++--
 include/matchers/hart_peaksbelow.hpp | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index e045970..432452f 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -126,7 +126,7 @@ private:
 
     inline bool notEqual (SampleType x, SampleType y)
     {
-        return std::abs (x - y) > m_toleranceLinear;
+        return ! (x == y || std::abs (x - y) <= m_toleranceLinear);  // NaN is never equal to anything
     }
 };
 
diff --git a/include/matchers/hart_peaksat.hpp b/include/matchers/hart_peaksat.hpp
index 496e0ee..048f9d8 100644
--- a/include/matchers/hart_peaksat.hpp
+++ b/include/matchers/hart_peaksat.hpp
@@ -47,7 +47,8 @@ public:
             {
                 const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (currentPeakLinear > observedPeakLinear)
+                // A NaN anywhere makes the peak NaN, too
+                if (currentPeakLinear > observedPeakLinear || (std::isnan (currentPeakLinear) && ! std::isnan (observedPeakLinear)))
                 {
                     observedPeakLinear = currentPeakLinear;
                     frameOfObservedPeakLinear = frame;
@@ -56,7 +57,7 @@ public:
             }
         }
 
-        if (std::abs (observedPeakLinear - m_targetLinear) > m_toleranceLinear)
+        if (observedPeakLinear != m_targetLinear && ! (std::abs (observedPeakLinear - m_targetLinear) <= m_toleranceLinear))
         {
             m_failedFrame = frameOfObservedPeakLinear;
             m_failedChannel = (int) channelOfObservedPeakLinear;
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 0e5aa8b..15afb6c 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -41,7 +41,7 @@ public:
             {
                 const SampleType observedPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (observedPeakLinear > m_thresholdLinear)
+                if (! (observedPeakLinear <= m_thresholdLinear))  // NaN is not below anything
                 {
                     m_failedFrame = frame;
                     m_failedChannel = channel;
-- 
2.43.0


From 3556c9b3e55726b6d469f9e06f579bf3f2bf1f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 13/32] fix: every channel of a plot starts at time zero

---
 include/hart_plot.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 49bd379..ad7faeb 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -44,11 +44,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         outputSignalPlot.x.major (t);
     }
 
-    double timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < input.getNumChannels(); ++channel)
     {
         auto &inputSignalLine = inputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < input.getNumFrames(); ++frame)
         {
@@ -57,11 +56,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
     {
         auto &outputSignalLine = outputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < output.getNumFrames(); ++frame)
         {
-- 
2.43.0


From 6f7e6666258bfabdc5249e66095402bdd2b10bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 14/32] fix: looped WavFile does not read past the end of the
 file

---
 include/signals/hart_wavfile.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 1d924f2..7f1419d 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -95,15 +95,13 @@ public:
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
         size_t frameInOutputBuffer = 0;
-        size_t frameInWavBuffer = m_wavOffsetFrames;
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
             for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
-                output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][frameInWavBuffer];
+                output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][m_wavOffsetFrames];
 
             ++frameInOutputBuffer;
-            ++frameInWavBuffer;
             ++m_wavOffsetFrames;
 
             if (m_loop == Loop::yes)
-- 
2.43.0


From 8980bb2993f2b16c5f37afba896fd925e3ebbb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 15/32] fix: WavFile can fill fewer channels than there are in
 the file, as documented

---
 include/signals/hart_wavfile.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 7f1419d..5b9ac7c 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>  // min()
 #include <memory>
 #include <string>
 
@@ -82,7 +83,7 @@ public:
     void prepare (double sampleRateHz, size_t numOutputChannels, size_t /*maxBlockSizeFrames*/) override
     {
         // There are a few ovbvious cases where channel number mismatch can be gracefully resolved - perhaps in the future
-        if (numOutputChannels != m_wavNumChannels)
+        if (! supportsNumChannels (numOutputChannels))
             HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, std::string ("Unexpected channel number"));
 
         if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz))
@@ -91,14 +92,15 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        // TODO: Add support for number of channels different from the wav file
+        // TODO: Add support for number of channels larger than in the wav file
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
+        const size_t numChannels = std::min (output.getNumChannels(), m_wavNumChannels);
         size_t frameInOutputBuffer = 0;
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < numChannels; ++channel)
                 output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][m_wavOffsetFrames];
 
             ++frameInOutputBuffer;
@@ -112,7 +114,7 @@ public:
         {
             hassert (m_loop == Loop::no);
 
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < numChannels; ++channel)
                 output[channel][frameInOutputBuffer] = (SampleType) 0;
 
             ++frameInOutputBuffer;
-- 
2.43.0


From 0b387fa422b4678740d4db7a83a5bdd9f0907b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 16/32] fix: an exception escaping a task fails that task and
 not the entire run

---
 include/hart_test_registry.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/hart_test_registry.hpp b/include/hart_test_registry.hpp
index ab34844..4e19076 100644
--- a/include/hart_test_registry.hpp
+++ b/include/hart_test_registry.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>  // shuffle()
+#include <exception>
 #include <iostream>
 #include <random>
 #include <string>
@@ -136,6 +137,16 @@ private:
             assertionFailMessage = e.what();
             assertionFailed = true;
         }
+        catch (const std::exception& e)
+        {
+            assertionFailMessage = std::string ("Unexpected exception: ") + e.what();
+            assertionFailed = true;
+        }
+        catch (...)
+        {
+            assertionFailMessage = "Unexpected exception of unknown type";
+            assertionFailed = true;
+        }
 
         // TODO: Output test durations
 
-- 
2.43.0


From 2dfb229961687447edb210ac80d09a4d11515355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 17/32] fix: SineSweep shorter than one frame is silent

---
 include/signals/hart_sine_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index cc2d727..c1dd10d 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -134,7 +134,7 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        if (m_generateSilence)
+        if (m_generateSilence || m_durationFrames == 0)
         {
             fillWithSilence (output);
             return;
-- 
2.43.0


From 96669aaba49bad3033e704bf0d2ebec80afce4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 18/32] fix: hosts check that DSPs and signals support the test
 configuration before preparing them

---
 include/hart_process_audio.hpp  |  7 ++++++-
 include/signals/hart_signal.hpp | 12 +++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 09f38e3..065dc10 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -337,6 +337,12 @@ public:
         if (m_durationFrames == 0)
             HART_THROW_OR_RETURN (hart::SizeError, "Nothing to process", std::move (m_processor));
 
+        if (! m_processor->supportsSampleRate (m_sampleRateHz))
+            HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", std::move (m_processor));
+
+        if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))
+            HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Channel layout is not supported by the tested DSP", std::move (m_processor));
+
         for (auto& check : perBlockChecks)
         {
             check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);
@@ -352,7 +358,6 @@ public:
             check.shouldSkip = false;
         }
 
-        // TODO: Ckeck supportsChannelLayout() here
         m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 33f7b16..6ed1792 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -197,10 +197,13 @@ public:
     /// @attention If you're not making a custom host, you probably don't need to call this method.
     void prepareWithDSPChain (double sampleRateHz, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
-        prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
         const size_t numInputChannels = numOutputChannels;
 
-        // TODO: Check if all the effects in the chain support those settings first
+        if (! supportsNumChannels (numOutputChannels))
+            HART_THROW_OR_RETURN_VOID (ChannelLayoutError, "Signal does not support this number of channels");
+
+        if (! supportsSampleRate (sampleRateHz))
+            HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "Signal does not support this sample rate");
 
         for (auto& dsp : dspChain)
         {
@@ -209,9 +212,12 @@ public:
 
             if (! dsp->supportsSampleRate (sampleRateHz))
                 HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "Not all DSP in the Signal's DSP chain support its sample rate");
+        }
 
+        prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
+
+        for (auto& dsp : dspChain)
             dsp->prepareWithEnvelopes (sampleRateHz, numInputChannels, numOutputChannels, maxBlockSizeFrames);
-        }
     }
 
     /// @brief Renders next block audio for the signal and all the effects in the DSP chain
-- 
2.43.0


From e24e783da098f2edea60c514a30118824c45824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 19/32] fix: requested files are saved when an assert fails,
 too

---
 include/hart_process_audio.hpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 065dc10..669b8ef 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -3,6 +3,7 @@
 #include <algorithm>  // min()
 #include <cassert>
 #include <cmath>
+#include <exception>
 #include <iomanip>
 #include <memory>
 #include <sstream>
@@ -377,6 +378,7 @@ public:
         AudioBuffer<SampleType> fullInputBuffer (m_numInputChannels);
         AudioBuffer<SampleType> fullOutputBuffer (m_numOutputChannels);
         bool atLeastOneCheckFailed = false;
+        std::exception_ptr assertFailure;  // Thrown only after saving the requested files
 
         while (offsetFrames < m_durationFrames)
         {
@@ -389,16 +391,23 @@ public:
             m_inputSignal->renderNextBlockWithDSPChain (inputBlock);
             m_processor->processWithEnvelopes (inputBlock, outputBlock);
 
-            const bool allChecksPassed = processChecks (perBlockChecks, outputBlock, offsetFrames);
-            atLeastOneCheckFailed |= ! allChecksPassed;
+            if (assertFailure == nullptr)
+            {
+                const bool allChecksPassed = processChecks (perBlockChecks, outputBlock, offsetFrames, assertFailure);
+                atLeastOneCheckFailed |= ! allChecksPassed;
+            }
+
             fullInputBuffer.appendFrom (inputBlock);
             fullOutputBuffer.appendFrom (outputBlock);
 
             offsetFrames += blockSizeFrames;
         }
 
-        const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer, 0);
-        atLeastOneCheckFailed |= ! allChecksPassed;
+        if (assertFailure == nullptr)
+        {
+            const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer, 0, assertFailure);
+            atLeastOneCheckFailed |= ! allChecksPassed;
+        }
 
         if (m_saveOutputMode == Save::always || (m_saveOutputMode == Save::whenFails && atLeastOneCheckFailed))
             WavWriter<SampleType>::writeBuffer (fullOutputBuffer, m_saveOutputPath, m_sampleRateHz, m_saveOutputWavFormat);
@@ -406,6 +415,9 @@ public:
         if (m_savePlotMode == Save::always || (m_savePlotMode == Save::whenFails && atLeastOneCheckFailed))
             plotData (fullInputBuffer, fullOutputBuffer, m_sampleRateHz, m_savePlotPath);
 
+        if (assertFailure != nullptr)
+            std::rethrow_exception (assertFailure);
+
         return std::move (m_processor);
     }
 
@@ -488,7 +500,7 @@ private:
         });
     }
 
-    bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock, size_t blockStartFrame)
+    bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock, size_t blockStartFrame, std::exception_ptr& assertFailure)
     {
         bool allChecksPassed = true;
 
@@ -520,7 +532,13 @@ private:
                     if (check.shouldPass)
                         appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock, blockStartFrame);
 
-                    throw hart::TestAssertException (std::string (stream.str()));
+                    const hart::TestAssertException exception (stream.str());
+
+                    if (m_saveOutputMode == Save::never && m_savePlotMode == Save::never)
+                        throw exception;
+
+                    assertFailure = std::make_exception_ptr (exception);
+                    return false;
                 }
                 else
                 {
@@ -538,7 +556,6 @@ private:
                     hart::ExpectationFailureMessages::get().emplace_back (stream.str());
                 }
 
-                // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
                 allChecksPassed = false;
-- 
2.43.0


From 45a65ff366409724a0b0645a7e22660b8aa7f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 20/32] fix: description of a linear SineSweep has no stray
 comma

---
 include/signals/hart_sine_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index c1dd10d..1f60f90 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -189,7 +189,7 @@ public:
             << hzPrecision
             << m_startFrequencyHz << "_Hz, "
             << m_endFrequencyHz << "_Hz, "
-            << (m_type == SweepType::linear ? ", SweepType::linear" : "SweepType::log")
+            << (m_type == SweepType::linear ? "SweepType::linear" : "SweepType::log")
             << (m_loop == Loop::yes ? ", Loop::yes)" : ", Loop::no)");
     }
 
-- 
2.43.0


From a7bddb57ebb6394d1522770b73e2c8ae406de9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 21/32] fix: description of PeaksBelow shows its tolerance
 argument

---
 include/matchers/hart_peaksbelow.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 15afb6c..4ebb87f 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -27,7 +27,8 @@ public:
     /// @param toleranceLinear Absolute tolerance for comparing frames, in linear domain (not decibels)
     PeaksBelow (double thresholdDb, double toleranceLinear = 1e-3):
         m_thresholdDb ((SampleType) thresholdDb),
-        m_thresholdLinear (static_cast<SampleType> (decibelsToRatio (thresholdDb) + toleranceLinear))
+        m_thresholdLinear (static_cast<SampleType> (decibelsToRatio (thresholdDb) + toleranceLinear)),
+        m_toleranceLinear (static_cast<SampleType> (toleranceLinear))
     {
     }
 
@@ -78,7 +79,7 @@ public:
     {
         stream << "PeaksBelow ("
             << dbPrecision << m_thresholdDb << "_dB, "
-            << linPrecision << m_thresholdLinear << ')';
+            << linPrecision << m_toleranceLinear << ')';
     }
 
     HART_MATCHER_DEFINE_COPY_AND_MOVE (PeaksBelow);
@@ -86,6 +87,7 @@ public:
 private:
     const SampleType m_thresholdDb;
     const SampleType m_thresholdLinear;
+    const SampleType m_toleranceLinear;
 
     size_t m_failedFrame = 0;
     size_t m_failedChannel = 0;
-- 
2.43.0


From 235793b7b7b54a643607af28d49faff1f23ab35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 22/32] fix: EqualsTo reports the level of negative expected
 samples

---
 include/matchers/hart_equalsto.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index 432452f..f52f671 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -96,7 +96,7 @@ public:
         const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);
         std::stringstream stream;
         stream << linPrecision << "Expected sample value: " << m_failedExpectedValue
-            << dbPrecision << " (" << ratioToDecibels (m_failedExpectedValue) << " dB)"
+            << dbPrecision << " (" << ratioToDecibels (std::abs (m_failedExpectedValue)) << " dB)"
             << linPrecision << ", difference: " << m_differenceLinear
             << dbPrecision << " (" << ratioToDecibels (m_differenceLinear) << " dB)";
 
-- 
2.43.0


From caa5fd0dc37fb888d506a5a423ec8f64659fde8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 23/32] fix: classes that forbid copying and moving compile,
 and report the attempt when it happens

---
 include/dsp/hart_dsp.hpp          | 6 ++----
 include/matchers/hart_matcher.hpp | 6 ++----
 include/signals/hart_signal.hpp   | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index d24b819..3a868e3 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -371,12 +371,10 @@ inline std::ostream& operator<< (std::ostream& stream, const DSP<SampleType>& ds
 /// @ingroup DSP
 #define HART_DSP_FORBID_COPY_AND_MOVE \
     std::unique_ptr<DSP<SampleType>> copy() const override { \
-        static_assert(false, "This DSP cannot be copied"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This DSP cannot be copied", nullptr); \
     } \
     std::unique_ptr<DSP<SampleType>> move() override { \
-        static_assert(false, "This DSP cannot be moved"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This DSP cannot be moved", nullptr); \
     }
 
 }  // namespace hart
diff --git a/include/matchers/hart_matcher.hpp b/include/matchers/hart_matcher.hpp
index 78a1662..ffa5d50 100644
--- a/include/matchers/hart_matcher.hpp
+++ b/include/matchers/hart_matcher.hpp
@@ -139,12 +139,10 @@ inline std::ostream& operator<< (std::ostream& stream, const Matcher<SampleType>
 /// @ingroup Matchers
 #define HART_MATCHER_FORBID_COPY_AND_MOVE \
     std::unique_ptr<Matcher<SampleType>> copy() const override { \
-        static_assert (false, "This Matcher cannot be copied"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Matcher cannot be copied", nullptr); \
     } \
     std::unique_ptr<Matcher<SampleType>> move() override { \
-        static_assert (false, "This Matcher cannot be moved"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Matcher cannot be moved", nullptr); \
     }
 
 
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 6ed1792..c5fb3ee 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -375,10 +375,8 @@ Signal<SampleType>&& operator>> (Signal<SampleType>&& signal, std::unique_ptr<DS
 /// @ingroup Signals
 #define HART_SIGNAL_FORBID_COPY_AND_MOVE \
     std::unique_ptr<Signal<SampleType>> copy() const override { \
-        static_assert(false, "This Signal cannot be copied"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Signal cannot be copied", nullptr); \
     } \
     std::unique_ptr<Signal<SampleType>> move() override { \
-        static_assert(false, "This Signal cannot be moved"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Signal cannot be moved", nullptr); \
     }
-- 
2.43.0


From f678811c4a517c600823d163958d5d1442ab4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 24/32] fix: checks compile for matchers passed as const

---
 include/hart_process_audio.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 669b8ef..04f632e 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -467,12 +467,13 @@ private:
     void addCheck (const Matcher<SampleType>& matcher, SignalAssertionLevel signalAssertionLevel, bool shouldPass)
     {
         const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
+        auto ownMatcher = matcher.copy();
         auto& checksGroup =
-            (matcher.canOperatePerBlock() && ! forceFullSignal)
+            (ownMatcher->canOperatePerBlock() && ! forceFullSignal)
                 ? perBlockChecks
                 : fullSignalChecks;
         checksGroup.emplace_back (AudioTestBuilder::Check {
-            matcher.copy(),
+            std::move (ownMatcher),
             signalAssertionLevel,
             false,  // shouldSkip
             shouldPass
@@ -488,12 +489,13 @@ private:
             "MatcherType must be a hart::Matcher subclass"
             );
         const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
+        auto ownMatcher = hart::make_unique<DecayedType> (std::forward<MatcherType> (matcher));
         auto& checksGroup =
-            (matcher.canOperatePerBlock() && ! forceFullSignal)
+            (ownMatcher->canOperatePerBlock() && ! forceFullSignal)
                 ? perBlockChecks
                 : fullSignalChecks;
         checksGroup.emplace_back (AudioTestBuilder::Check {
-            hart::make_unique<DecayedType> (std::forward<MatcherType> (matcher)),
+            std::move (ownMatcher),
             signalAssertionLevel,
             false,  // shouldSkip
             shouldPass
-- 
2.43.0


From a7f99f78bf1d4e8ebbb923d9420621e70e28f7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 25/32] fix: a plot that cannot be written is reported

---
 include/hart_plot.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index ad7faeb..55094a4 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -1,10 +1,14 @@
 #pragma once
 
+#include <fstream>
+#include <string>
+
 #include "../dependencies/choc/platform/choc_DisableAllWarnings.h"
 #include "../dependencies/signalsmith/plot.h"
 #include "../dependencies/choc/platform/choc_ReenableAllWarnings.h"
 
 #include "hart_audio_buffer.hpp"
+#include "hart_exceptions.hpp"
 
 namespace hart {
 
@@ -68,7 +72,12 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    figure.write (plotFilePath);
+    std::ofstream plotFile (plotFilePath);
+    figure.write (plotFile);
+    plotFile.close();
+
+    if (! plotFile)
+        HART_THROW_OR_RETURN_VOID (hart::IOError, "Failed to write the plot file");
 }
 
 }  // namespace hart
-- 
2.43.0


From ab6c0fe844dee35f4301db501449a854a11c006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 26/32] fix: a wav file that cannot be written completely is
 reported

---
 include/hart_wavwriter.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/hart_wavwriter.hpp b/include/hart_wavwriter.hpp
index 0fd9d9d..2829141 100644
--- a/include/hart_wavwriter.hpp
+++ b/include/hart_wavwriter.hpp
@@ -52,6 +52,8 @@ public:
         if (! drwav_init_file_write (&drWavHandle, fileName.c_str(), &drWavFormat, nullptr))
             HART_THROW_OR_RETURN_VOID (hart::IOError, "Failed to init WAV writer");
 
+        drwav_uint64 numFramesWritten = 0;
+
         switch (wavFormat)
         {
             case WavFormat::float32:
@@ -64,7 +66,7 @@ public:
                         pcmData[frame * numChannels + channel] = buffer[channel][frame];
                 }
 
-                drwav_write_pcm_frames (&drWavHandle, numFrames, pcmData.data());
+                numFramesWritten = drwav_write_pcm_frames (&drWavHandle, numFrames, pcmData.data());
                 break;
             }
 
@@ -83,7 +85,7 @@ public:
                     }
                 }
 
-                drwav_write_pcm_frames (&drWavHandle, numFrames, pcmData.data());
+                numFramesWritten = drwav_write_pcm_frames (&drWavHandle, numFrames, pcmData.data());
                 break;
             }
 
@@ -102,7 +104,7 @@ public:
                     }
                 }
 
-                drwav_write_pcm_frames (&drWavHandle, numFrames, pcmData.data());
+                numFramesWritten = drwav_write_pcm_frames (&drWavHandle, numFrames, pcmData.data());
                 break;
             }
 
@@ -124,12 +126,15 @@ public:
                     }
                 }
 
-                drwav_write_pcm_frames (&drWavHandle, numFrames, pcmData.data());
+                numFramesWritten = drwav_write_pcm_frames (&drWavHandle, numFrames, pcmData.data());
                 break;
             }
         }
 
         drwav_uninit (&drWavHandle);
+
+        if (numFramesWritten != numFrames)
+            HART_THROW_OR_RETURN_VOID (hart::IOError, "Failed to write all frames to the wav file");
     }
 };
 
-- 
2.43.0


From f4026918dfb934c21cba8dd0e5976627f858b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 27/32] fix: getMagnitude() rejects frame ranges that wrap
 around

---
 include/hart_audio_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index b9fc275..b6b5a3b 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -140,7 +140,7 @@ public:
         if (channel >= m_numChannels)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid channel", (SampleType) 0);
 
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (numFrames == 0 || startFrame > m_numFrames || numFrames > m_numFrames - startFrame)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         const SampleType* start = m_channelPointers[channel] + startFrame;
@@ -155,7 +155,7 @@ public:
 
     SampleType getMagnitude (size_t startFrame, size_t numFrames) const
     {
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (numFrames == 0 || startFrame > m_numFrames || numFrames > m_numFrames - startFrame)
                 HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         SampleType peakSampleAcrossAllChannels = (SampleType) 0;
-- 
2.43.0


From dadda4aae38a85cf083d0f0b2c262f36f3072b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 28/32] fix: description of GainLinear shows its gain as a
 linear value

---
 include/dsp/hart_gainlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_gainlinear.hpp b/include/dsp/hart_gainlinear.hpp
index 5b70120..c44becc 100644
--- a/include/dsp/hart_gainlinear.hpp
+++ b/include/dsp/hart_gainlinear.hpp
@@ -96,7 +96,7 @@ public:
 
     virtual void represent (std::ostream& stream) const override
     {
-        stream << dbPrecision << "GainLinear (" << m_initialGainLinear << ")";
+        stream << linPrecision << "GainLinear (" << m_initialGainLinear << ")";
     }
 
     /// @param id Only @ref GainLinear::gainLinear is accepted
-- 
2.43.0


From 771f6b3c6c09a4a3a9897fdc98edaaeb619bb606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:35 +0000
Subject: [PATCH 29/32] fix: description of SineSweep shows its initial phase

---
 include/signals/hart_sine_sweep.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index 1f60f90..769c0aa 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -190,7 +190,8 @@ public:
             << m_startFrequencyHz << "_Hz, "
             << m_endFrequencyHz << "_Hz, "
             << (m_type == SweepType::linear ? "SweepType::linear" : "SweepType::log")
-            << (m_loop == Loop::yes ? ", Loop::yes)" : ", Loop::no)");
+            << (m_loop == Loop::yes ? ", Loop::yes, " : ", Loop::no, ")
+            << radPrecision << m_initialPhaseRadians << "_rad)";
     }
 
     HART_SIGNAL_DEFINE_COPY_AND_MOVE (SineSweep);
-- 
2.43.0


From 43ac156fc28b4b9bbdd16c02975dfbac4252f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 30/32] fix: copies of a prepared DSP keep delivering its
 envelopes

---
 include/dsp/hart_dsp.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 3a868e3..e1cf259 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -140,12 +140,15 @@ public:
     {
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
+
+        copyEnvelopeBuffers (other);
     }
 
     /// @brief Move constructor
     /// @details Attached automation envelopes are moved as well
     DSP (DSP&& other) noexcept
         : m_envelopes (std::move (other.m_envelopes))
+        , m_envelopeBuffers (std::move (other.m_envelopeBuffers))
     {
     }
 
@@ -161,6 +164,8 @@ public:
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
 
+        copyEnvelopeBuffers (other);
+
         return *this;
     }
 
@@ -169,7 +174,10 @@ public:
     DSP& operator= (DSP&& other) noexcept
     {
         if (this != &other)
+        {
             m_envelopes = std::move (other.m_envelopes);
+            m_envelopeBuffers = std::move (other.m_envelopeBuffers);
+        }
 
         return *this;
     }
@@ -303,6 +311,19 @@ private:
     /// @param[in] paramId Some ID that your subclass understands
     /// @param[in] blockSize Buffer size in frames, should be the same as ```input```/```output```'s size in @ref process()
     /// @param[out] valuesOutput Container to get filled with the rendered automation values
+    // A copy of a prepared DSP is prepared for the same envelopes and block sizes
+    void copyEnvelopeBuffers (const DSP& other)
+    {
+        m_envelopeBuffers.clear();
+
+        for (auto& pair : other.m_envelopeBuffers)
+        {
+            auto& envelopeBuffer = m_envelopeBuffers[pair.first];
+            envelopeBuffer.reserve (pair.second.capacity());
+            envelopeBuffer.resize (pair.second.size());
+        }
+    }
+
     void getValues (int paramId, size_t blockSize, std::vector<double>& valuesOutput)
     {
         if (valuesOutput.size() < blockSize)
-- 
2.43.0


From f1ede4d97959c43e4a22799995cbe5164c9a4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:12 +0000
Subject: [PATCH 31/32] fix: SineWave starts from the same phase when
 constructed and when reset

---
 include/signals/hart_sinewave.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/signals/hart_sinewave.hpp b/include/signals/hart_sinewave.hpp
index 6c13f28..3109d06 100644
--- a/include/signals/hart_sinewave.hpp
+++ b/include/signals/hart_sinewave.hpp
@@ -56,6 +56,7 @@ public:
     void reset() override
     {
         m_phaseRadians = m_initialPhaseRadians;
+        clampPhase();
     }
 
     void represent (std::ostream& stream) const override
-- 
2.43.0


From 06f063289dc063a426b0da9f5adc249c8bd48459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:35 +0000
Subject: [PATCH 32/32] fix: lines of silent audio were missing from plots

---
 include/hart_plot.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 55094a4..1e8ab85 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -32,9 +32,11 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
     outputSignalPlot.title ("Output audio");
 
     const SampleType inputSamplePeak = input.getMagnitude (0, input.getNumFrames());
-    inputSignalPlot.y.minor (inputSamplePeak).minor (-inputSamplePeak);
+    const SampleType inputAxisPeak = inputSamplePeak == 0 ? (SampleType) 1 : inputSamplePeak;  // Silence needs a non-zero value range, too
+    inputSignalPlot.y.minor (inputAxisPeak).minor (-inputAxisPeak);
     const SampleType outputSamplePeak = output.getMagnitude (0, output.getNumFrames());
-    outputSignalPlot.y.minor (outputSamplePeak).minor (-outputSamplePeak);
+    const SampleType outputAxisPeak = outputSamplePeak == 0 ? (SampleType) 1 : outputSamplePeak;
+    outputSignalPlot.y.minor (outputAxisPeak).minor (-outputAxisPeak);
 
     for (double t = 0.1; t < bufferSizeSeconds + 1e-6; t += 0.1)
     {
-- 
2.43.0

