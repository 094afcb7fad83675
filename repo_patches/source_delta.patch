From 066c6cd6a18e407935d3f31c153681bb332a57f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 01/63] fix: composite itself is not part of its internal
 network

---
 klang/composite.py |  9 +++------
 klang/execution.py | 22 +++++++++++++++++-----
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index b7fdbee..98786ce 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -70,12 +70,9 @@ class Composite(Block):
             blocks = introspect(self)
 
         with temporarily_unpatch(self):
-            execOrder = determine_execution_order(blocks)
-
-        while self in execOrder:
-            execOrder.remove(self)
-
-        self.execOrder = execOrder
+            # The composite itself is no inner block. Its relays would connect
+            # the end of the inner network with its start (phantom loop).
+            self.execOrder = determine_execution_order(blocks, ignore=[self])
 
     def update(self):
         """Execute internal composite blocks."""
diff --git a/klang/execution.py b/klang/execution.py
index 6e7d16a..abf7635 100644
--- a/klang/execution.py
+++ b/klang/execution.py
@@ -5,7 +5,7 @@ from klang.block import input_neighbors, output_neighbors
 from klang.graph import graph_matrix, topological_sorting
 
 
-def traverse_network(blocks):
+def traverse_network(blocks, ignore=()):
     """Traverse block network and collect vertices and edges. Vertices are
     returned as a list, not as a set, for preserving sequence order / better
     edge case handling.
@@ -13,6 +13,9 @@ def traverse_network(blocks):
     Args:
         blocks (iterable): Starting blocks for graph traversal.
 
+    Kwargs:
+        ignore (iterable): Blocks which are not part of the network.
+
     Returns:
         tuple: Network vertices and edges.
     """
@@ -24,20 +27,29 @@ def traverse_network(blocks):
         if block not in vertices:
             vertices.append(block)
             for successor in output_neighbors(block):
+                if successor in ignore:
+                    continue
+
                 edges.add((block, successor))
                 queue.append(successor)
 
             for predecessor in input_neighbors(block):
+                if predecessor in ignore:
+                    continue
+
                 edges.add((predecessor, block))
                 queue.append(predecessor)
 
     return vertices, edges
 
 
-def determine_execution_order(blocks):
-    """Get appropriate execution order for block network."""
-    blocks = list(blocks)
-    vertices, edges = traverse_network(blocks)
+def determine_execution_order(blocks, ignore=()):
+    """Get appropriate execution order for block network. Blocks in `ignore` are
+    not considered part of the network.
+    """
+    ignore = list(ignore)
+    blocks = [block for block in blocks if block not in ignore]
+    vertices, edges = traverse_network(blocks, ignore)
     if not edges:
         return vertices
 
-- 
2.43.0


From 917bca16fef91eb4f67ea809e979979873f4c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 02/63] fix: restore connections when body of
 temporarily_unpatch fails

---
 klang/composite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index 98786ce..d435cb6 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -43,10 +43,11 @@ def temporarily_unpatch(block):
     for src, dst in connections:
         src.disconnect(dst)
 
-    yield block
-
-    for src, dst in connections:
-        src.connect(dst)
+    try:
+        yield block
+    finally:
+        for src, dst in connections:
+            src.connect(dst)
 
 
 class Composite(Block):
-- 
2.43.0


From 0708cad601c492fe1ae3581c11c48c032fbc05f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 03/63] fix: validate execution order of networks without any
 plain blocks

---
 klang/klang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/klang.py b/klang/klang.py
index cf2c6f4..ab69b97 100644
--- a/klang/klang.py
+++ b/klang/klang.py
@@ -33,7 +33,7 @@ def validate_global_execution_order(execOrder, logger):
     """
     flattenedExecOrder = unravel(execOrder)
     counter = collections.Counter(flattenedExecOrder)
-    hasDuplicates = max(counter.values()) > 1
+    hasDuplicates = max(counter.values(), default=0) > 1
     if hasDuplicates:
         fmt = (
             'Found duplicates in flattened execOrder! Following blocks will '
-- 
2.43.0


From 450fa88c8bd4ebde3f372e498d9c34a66ab414a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 04/63] fix: C filters read non-contiguous input, refuse
 invalid input and release it

---
 klang/audio/_filters.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 3430019..70b7af2 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -192,15 +192,17 @@ PyGetSetDef RingBufferFilter_getset[] = {
 static PyArrayObject *
 parse_input_array(PyObject *args)
 {
-    PyArrayObject *inArray;
-    if (!PyArg_Parse(args, "O", &inArray)) {
-        PyErr_SetString(PyExc_RuntimeError, "Could not parse arguments!");
+    // Contiguous, aligned and native byte order. New reference.
+    PyArrayObject *inArray = (PyArrayObject *) PyArray_FROM_OTF(
+        args, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY
+    );
+    if (!inArray) {
         return NULL;
     }
 
-    inArray = PyArray_FROM_OT(inArray, NPY_DOUBLE);
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -240,6 +242,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -250,6 +253,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -266,6 +270,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -276,6 +281,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, y[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -292,6 +298,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -302,6 +309,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, self->alpha * y[i] + x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
-- 
2.43.0


From c114e897a2e9ea4f35825a15b62c0348aad930c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 05/63] fix: C filters refuse a length below 1

---
 klang/audio/_filters.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 70b7af2..e69d29e 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -121,6 +121,11 @@ RingBufferFilter_new(PyTypeObject *type, PyObject *args, PyObject *kwargs)
         return NULL;
     }
 
+    if (length < 1) {
+        PyErr_SetString(PyExc_ValueError, "length has to be at least 1!");
+        return NULL;
+    }
+
     RingBufferFilterObject *self;
     self = (RingBufferFilterObject *) type->tp_alloc(type, 0);
     if (!self) {
@@ -132,6 +137,7 @@ RingBufferFilter_new(PyTypeObject *type, PyObject *args, PyObject *kwargs)
     self->ringBuffer = RingBuffer_create(length);
     if (!self->ringBuffer) {
         PyErr_SetString(PyExc_RuntimeError, "Could not initialize RingBuffer!");
+        Py_DECREF(self);
         return NULL;
     }
 
-- 
2.43.0


From a13491799e7966e72af77a4b23600eaa3615a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 06/63] fix: deleting an attribute of the C envelope no longer
 crashes

---
 klang/audio/_envelope.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 03f469f..5cf3327 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -220,6 +220,11 @@ Envelope_get_attack(Envelope *self, void *closure)
 static int
 Envelope_set_attack(Envelope *self, PyObject *value, void *closure)
 {
+    if (!value) {
+        PyErr_SetString(PyExc_TypeError, "Can not delete attribute!");
+        return -1;
+    }
+
     double attack = PyFloat_AsDouble(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
@@ -255,6 +260,11 @@ Envelope_get_decay(Envelope *self, void *closure)
 static int
 Envelope_set_decay(Envelope *self, PyObject *value, void *closure)
 {
+    if (!value) {
+        PyErr_SetString(PyExc_TypeError, "Can not delete attribute!");
+        return -1;
+    }
+
     double decay = PyFloat_AsDouble(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
@@ -290,6 +300,11 @@ Envelope_get_sustain(Envelope *self, void *closure)
 static int
 Envelope_set_sustain(Envelope *self, PyObject *value, void *closure)
 {
+    if (!value) {
+        PyErr_SetString(PyExc_TypeError, "Can not delete attribute!");
+        return -1;
+    }
+
     double sustain  = PyFloat_AsDouble(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
@@ -325,6 +340,11 @@ Envelope_get_release(Envelope *self, void *closure)
 static int
 Envelope_set_release(Envelope *self, PyObject *value, void *closure)
 {
+    if (!value) {
+        PyErr_SetString(PyExc_TypeError, "Can not delete attribute!");
+        return -1;
+    }
+
     double release = PyFloat_AsDouble(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
@@ -360,6 +380,11 @@ Envelope_get_overshoot(Envelope *self, void *closure)
 static int
 Envelope_set_overshoot(Envelope *self, PyObject *value, void *closure)
 {
+    if (!value) {
+        PyErr_SetString(PyExc_TypeError, "Can not delete attribute!");
+        return -1;
+    }
+
     double overshoot = PyFloat_AsDouble(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
-- 
2.43.0


From eb27af3246e639580287503432e5b552baf7b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 07/63] fix: fallback envelope stays in range and keeps all
 samples at stage changes

---
 klang/audio/envelope.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 89d8502..9e2dde3 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -135,8 +135,9 @@ def calculate_transfer_function(duration, overshoot=DEFAULT_OVERSHOOT):
         tuple: Transfer function coefficients.
     """
     coeff = calculate_coefficient(duration, overshoot)
-    numerator = (coeff, )
-    denominator = (1., coeff - 1.)
+    alpha = 1. - math.exp(-coeff)
+    numerator = (0., alpha)  # Filter state is the next output sample
+    denominator = (1., alpha - 1.)
     return numerator, denominator
 
 
@@ -371,10 +372,10 @@ class Envelope:
         else:
             return self.stage
 
-    def go_to_next_stage(self):
+    def go_to_next_stage(self, prepend=None):
         """Advance to next envelope stage."""
         nextStage = self.determine_next_stage()
-        self.switch_stage(nextStage)
+        self.switch_stage(nextStage, prepend)
 
     def sample(self, bufferSize=UNUSED):
         """Get next BUFFER_SIZE envelope samples.
@@ -387,7 +388,7 @@ class Envelope:
         """
         samples, self.value = next(self.sampleGenerator)
         while generator_finished(samples):
-            self.go_to_next_stage()
+            self.go_to_next_stage(prepend=samples)
             samples, self.value = next(self.sampleGenerator)
 
         return samples
-- 
2.43.0


From 5c90fb1d94cbc23b23ecfe8900e2dacc27b99591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 08/63] fix: looping fallback envelope without any duration no
 longer hangs

---
 klang/audio/envelope.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 9e2dde3..cfb9168 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -387,7 +387,17 @@ class Envelope:
             array: Envelope samples.
         """
         samples, self.value = next(self.sampleGenerator)
+        cycleStart = None
         while generator_finished(samples):
+            if self.stage is Stage.RELEASING:
+                if samples.size == cycleStart:
+                    # Looping without producing any samples. Fill up.
+                    self.switch_stage(Stage.ATTACKING)
+                    missing = BUFFER_SIZE - samples.size
+                    return np.append(samples, full(missing, self.value))
+
+                cycleStart = samples.size
+
             self.go_to_next_stage(prepend=samples)
             samples, self.value = next(self.sampleGenerator)
 
-- 
2.43.0


From eb1151172cc20b37e87ead2d6db9c235c38c48da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 09/63] fix: chirp stays phase continuous after reaching its
 end frequency

---
 klang/audio/oscillators.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 912ec3c..9b9a68d 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -20,22 +20,15 @@ def chirp_phase(t, freqStart, tEnd, freqEnd, method='linear', vertex_zero=True):
     scipy.signal.waveforms._chirp_phase with constant frequency extension for
     t >= tEnd.
     """
-    if (tEnd <= t[0]) or (freqStart == freqEnd):
+    if (tEnd <= 0) or (freqStart == freqEnd):
         # Only constant frequency
         return TAU * freqEnd * t
 
-    phase = _chirp_phase(t, f0=freqStart, t1=tEnd, f1=freqEnd, method=method,
-                         vertex_zero=vertex_zero)
-    if t[-1] < tEnd:
-        # Only chirping
-        return phase
+    phase = _chirp_phase(np.minimum(t, tEnd), f0=freqStart, t1=tEnd, f1=freqEnd,
+                         method=method, vertex_zero=vertex_zero)
 
-    # Mixture between chirp and constant frequency
-    constFreq = (t >= tEnd)
-    mid = constFreq.argmax()
-    phaseOffset = phase[mid] - TAU * freqEnd * t[mid]
-    phase[mid:] = TAU * freqEnd * t[mid:] + phaseOffset
-    return phase
+    # Continue with constant frequency from the end of the chirp
+    return phase + TAU * freqEnd * np.maximum(t - tEnd, 0.)
 
 
 def sample_phase(frequency, startPhase=0.):
-- 
2.43.0


From 3bb478b53780473f7db74be06faef16e2c876402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 10/63] fix: copied FM oscillator keeps the phase of its
 modulator

---
 klang/audio/oscillators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 9b9a68d..7ad96e0 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -218,13 +218,15 @@ class FmOscillator(Oscillator):
         self.output.set_value(samples)
 
     def __deepcopy__(self, memo):
-        return type(self)(
+        osc = type(self)(
             frequency=self.frequency.value,
             intensity=self.intensity,
             modFrequency=self.modulator.frequency.value,
             wave_func=self.wave_func,
             startPhase=self.currentPhase,
         )
+        osc.modulator.currentPhase = self.modulator.currentPhase
+        return osc
 
 
 class PwmOscillator(Phasor):
-- 
2.43.0


From 517654524dbdb783f49aba399f20cfb1562f43e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 11/63] fix: random wave function accepts scalar phases

---
 klang/audio/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/waves.py b/klang/audio/waves.py
index bcbc65f..fa817e8 100644
--- a/klang/audio/waves.py
+++ b/klang/audio/waves.py
@@ -41,7 +41,7 @@ def triangle(phase):
 
 def random(phase):
     """Uniform random wave function."""
-    return 2. * np.random.random(size=phase.shape) - 1.
+    return 2. * np.random.random(size=np.shape(phase)) - 1.
 
 
 WAVE_FUNCTIONS = {
-- 
2.43.0


From f832df19b42e644c35a470bb50ba53e3a20311c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 12/63] fix: delay effect outputs the delayed signal

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 7023a79..da22a39 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -169,7 +169,7 @@ class Delay(Block):
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek()
+        old = self.ring.peek().copy()  # Is about to be overwritten
         self.ring.extend(new + self.feedback * old)
         self.output.set_value(blend(new, old, self.drywet))
 
-- 
2.43.0


From 27023b1192e4ca14aceb5144dbd9d3dfb6c24a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 13/63] fix: validate delay time after conversion to seconds

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index da22a39..b9fc913 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -146,12 +146,12 @@ class Delay(Block):
             feedback (float): Amount of feedback.
             drywet (float): Mixture between dry and effected signal.
         """
+        time = compute_duration(time)
         self.validate_delay_time(time)
         super().__init__(nInputs=1, nOutputs=1)
         self.feedback = feedback
         self.drywet = drywet
 
-        time = compute_duration(time)
         length = int(time * SAMPLING_RATE)
         capacity = int(self.MAX_TIME * SAMPLING_RATE)
 
-- 
2.43.0


From 58285cf7aaa4538b394ac9e59da828024434fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 14/63] fix: string representation of filter coefficients

---
 klang/audio/effects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index b9fc913..2c4ef76 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -274,9 +274,9 @@ class FilterCoefficients:
         return self.coefficients[i.clip(0, length-1)]
 
     def __str__(self):
-        infos = [self.coefficients.design_func.__name__]
-        infos.extend('%s' % arg for arg in self.coefficients.args)
-        infos.extend('%s=%s' % keyvalue for keyvalue in self.coefficients.kwargs.items())
+        infos = [self.design_func.__name__]
+        infos.extend('%s' % arg for arg in self.args)
+        infos.extend('%s=%s' % keyvalue for keyvalue in self.kwargs.items())
         return '%s(%s)' % (type(self).__name__, ', '.join(infos))
 
 
-- 
2.43.0


From 1cc72f754b3f52906d1c03437475803922c0520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 15/63] fix: tremolo envelope does not overshoot when its
 smoothness changes

---
 klang/audio/effects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 2c4ef76..bf364fe 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -83,7 +83,8 @@ class Tremolo(Composite):
         smoothness: Value input for envelope shape.
         dutyCycle: dutyCycle relays to lfo.
         lfo: Pulse width modulation lfo.
-        zi: Low pass filter state.
+        zi: Low pass filter state (last output value, so that it stays valid
+            when the coefficients change).
     """
 
     def __init__(self, rate: TimeOrNoteValue = 3., depth: float = .8,
@@ -125,7 +126,9 @@ class Tremolo(Composite):
         coeffs = low_pass_coefficients(1. / decay)
         self.lfo.update()
         pwm = self.lfo.output.value
-        filteredPwm, self.zi = scipy.signal.lfilter(*coeffs, pwm, zi=self.zi)
+        _, (_, a1) = coeffs
+        filteredPwm, _ = scipy.signal.lfilter(*coeffs, pwm, zi=-a1 * self.zi)
+        self.zi = filteredPwm[-1:]
         env = (1. - depth) + depth * (.5 + .5 * filteredPwm)
 
         # Apply
-- 
2.43.0


From 500126812c43d0918e25875a8758603969ba54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:24 +0000
Subject: [PATCH 16/63] fix: looped sample playback wraps to the loop start in
 order

---
 klang/audio/sampling.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index fd0ee98..4bde868 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -267,22 +267,16 @@ class Sample:
         """Sample callback. Get some new samples for resampler."""
         start = self.currentIndex
         stop = start + nFrames
-        reachedEnd = (stop >= self.stop)
-        if reachedEnd:
-            if self.loop:
-                stop = (stop % self.stop) + self.start
-            else:
-                # Block for future uses
-                stop = self.stop
-
+        if stop >= self.stop and self.loop:
+            # Wrap around inside of [start, stop)
+            length = self.stop - self.start
+            indices = start - self.start + np.arange(nFrames)
+            self.currentIndex = self.start + (stop - self.start) % length
+            return self.data[self.start + indices % length]
+
+        stop = min(stop, self.stop)  # Block for future uses
         self.currentIndex = stop
-        if start <= stop:
-            return self.data[start:stop]
-
-        return np.concatenate([
-            self.data[self.start:stop],
-            self.data[start:self.stop],
-        ])
+        return self.data[start:stop]
 
     def read(self, nFrames=BUFFER_SIZE):
         """Get next samples."""
-- 
2.43.0


From 73b71ccb3ed77f10fda9bf0567311dd9c3a845b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 17/63] fix: audio file block outputs stereo samples as
 (channels, samples)

---
 klang/audio/sampling.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 4bde868..7c8b086 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -310,7 +310,7 @@ class AudioFile(Block):
         self.sample = Sample(rate, data, *args, **kwargs)
         self.playing = False
         shape = (self.sample.nChannels, BUFFER_SIZE)
-        self.silence = get_silence(shape)
+        self.silence = get_silence(shape).squeeze()
         self.mute_outputs()
 
     @property
@@ -350,8 +350,7 @@ class AudioFile(Block):
 
         data = self.sample.read(BUFFER_SIZE)
         self.playing = self.sample.playing
-        samples = extend_with_silence(data.T)
-        samples = (samples.T).squeeze()
+        samples = extend_with_silence(data.T).squeeze()
         self.output.set_value(samples)
 
     def __str__(self):
-- 
2.43.0


From 2a11396ec3cb01671538efc357cfeb1a97b51331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:35 +0000
Subject: [PATCH 18/63] fix: audio file plays until the resampler is drained

---
 klang/audio/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 7c8b086..1dbeaeb 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -349,7 +349,7 @@ class AudioFile(Block):
             return self.mute_outputs()
 
         data = self.sample.read(BUFFER_SIZE)
-        self.playing = self.sample.playing
+        self.playing = (len(data) == BUFFER_SIZE)  # Resampler is not drained yet
         samples = extend_with_silence(data.T).squeeze()
         self.output.set_value(samples)
 
-- 
2.43.0


From e5a8eee82dded8edfd961399ad841d783e8c9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 19/63] fix: write one dimensional mono audio to WAV file

---
 klang/audio/wavfile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 0b5a614..6e1a4bd 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -5,6 +5,7 @@ import numpy as np
 import scipy.io.wavfile
 
 from klang.config import SAMPLING_RATE
+from klang.constants import MONO
 from klang.math import normalize_values
 
 
@@ -55,9 +56,12 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     """Write mono / stereo audio to WAV file."""
     # TODO: 8 bit -> uint8, 24 bit -> ???, 32 bit -> int32
     audio = np.asarray(audio)
+    if audio.ndim == MONO:
+        audio = audio.reshape((-1, 1))
+
+    m, n = audio.shape
+    assert m > n
 
     # Scale to full Wertebereich of target bit depth.
     samples = (normalize_values(audio) * np.iinfo(dtype).max).astype(dtype)
-    m, n = samples.shape
-    assert m > n
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From bae346a9b94efc4ce101f12f3a40ab951210a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 20/63] fix: write silent audio to WAV file

---
 klang/audio/wavfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 6e1a4bd..091a5b0 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -63,5 +63,8 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     assert m > n
 
     # Scale to full Wertebereich of target bit depth.
-    samples = (normalize_values(audio) * np.iinfo(dtype).max).astype(dtype)
+    if audio.any():
+        audio = normalize_values(audio)
+
+    samples = (audio * np.iinfo(dtype).max).astype(dtype)
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From 4c1267a566ebe3eabbd739abb62bfb2cdd6ee94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 21/63] fix: single precision audio does not overflow 32 bit
 samples

---
 klang/audio/wavfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 091a5b0..b0fb1e1 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -29,7 +29,7 @@ def convert_samples_to_int(samples, dtype=np.int16):
         raise ValueError('Already int samples!')
 
     maxValue = np.iinfo(dtype).max
-    return (maxValue * samples).astype(dtype)
+    return (maxValue * samples.astype(float)).astype(dtype)
 
 
 def load_wave(filepath):
@@ -66,5 +66,5 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     if audio.any():
         audio = normalize_values(audio)
 
-    samples = (audio * np.iinfo(dtype).max).astype(dtype)
+    samples = (audio.astype(float) * np.iinfo(dtype).max).astype(dtype)
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From ed8164e6e3d6c7690926f50bee1c3aa9186c77c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 22/63] fix: progress bar of length one

---
 klang/progress_bar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/progress_bar.py b/klang/progress_bar.py
index 6c204ff..9850489 100644
--- a/klang/progress_bar.py
+++ b/klang/progress_bar.py
@@ -28,7 +28,7 @@ class ProgressBar:
 
     def render(self, i) -> str:
         """Render progress bar."""
-        progress = max(0, min(1, i / (self.length - 1)))
+        progress = max(0, min(1, i / max(1, self.length - 1)))
 
         # ETA
         now = self.clock()
-- 
2.43.0


From 3b898778d4a67912117e22a5810daa05fb9b9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 23/63] fix: clock block reads the frequency value of its
 phasor

---
 klang/audio/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index ca6c27b..7444d75 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -28,7 +28,7 @@ class Clock(Block):
     @property
     def frequency(self):
         """Clock frequency."""
-        return self.phasor.frequency
+        return self.phasor.frequency.value
 
     def update(self):
         t = get_time(BUFFER_SIZE)
-- 
2.43.0


From 44e1db3afecb89a670c5e7320655f3978f79d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 24/63] fix: fade-out starts within a buffer instead of jumping
 at the next one

---
 klang/audio/klanggeber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 05ccd10..de8f0d2 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -240,7 +240,7 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
             silence = get_silence((frame_count, dac.nChannels), D_TYPE)
             return silence, pyaudio.paAbort
 
-        if playTime >= fadeOutStart:
+        if fadeout > 0 and playTime + INTERVAL > fadeOutStart:
             outData *= fade_out_envelope(playTime)
 
         if filepath:
-- 
2.43.0


From 1e4514e4e2abef93230e14fe385f75b5eb3ec5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 25/63] fix: note-offs reach the voice of their note within the
 same buffer

---
 klang/audio/synthesizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index b688f77..594ff1d 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -202,6 +202,10 @@ class PolyphonicSynthesizer(Synthesizer):
             #print('Play new note', note)
             voice = next(self.freeVoice)
             voice.input.push(note)
+
+            # Voice belongs to the new note from now on and not only from its
+            # next update. For note-offs which arrive within the same buffer.
+            voice.currentPitch = note.pitch
         else:
             #print('Kill old note', note)
             for voice in self.voices:
-- 
2.43.0


From 0649acd1a3fc72920139b34a0a1522bfa6ea1504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 26/63] fix: arpeggiator releases its last note only once

---
 klang/arpeggiator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/arpeggiator.py b/klang/arpeggiator.py
index 2900ba0..6ce0ac2 100644
--- a/klang/arpeggiator.py
+++ b/klang/arpeggiator.py
@@ -185,6 +185,7 @@ class Arpeggiator(Composite):
             if self.prevNote:
                 noteOff = self.prevNote.silence()
                 self.output.send(noteOff)
+                self.prevNote = None
 
             if self.arpeggio:
                 note = next(self.arpeggio)
-- 
2.43.0


From afd66a2e44cd6b2f001e6b40fbc7e1943e167a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 27/63] fix: pizza slice number of tiny negative angles is in
 range

---
 klang/sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index b3334b8..8c54696 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -65,7 +65,7 @@ def pizza_slice_number(angle: float, nSlices: int) -> int:
     Returns:
         int: Pizza slice number.
     """
-    return int((angle % TAU) / TAU * nSlices)
+    return int((angle % TAU) / TAU * nSlices) % nSlices
 
 
 def atleast_1d(obj) -> Pattern:
-- 
2.43.0


From 48c5aa0f253786df60d2c9d9e1bffc63cb84847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 28/63] fix: pizza slicer notices full turns within the same
 slice

---
 klang/sequencer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index 8c54696..87d11cb 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -11,7 +11,7 @@ from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.composite import Composite
 from klang.connections import MessageInput, MessageOutput, MessageRelay, Relay
-from klang.constants import TAU
+from klang.constants import INF, PI, TAU
 from klang.messages import Note
 from klang.music.note_values import QUARTER_NOTE, SIXTEENTH_NOTE
 from klang.music.rhythm import MicroRhyhtm
@@ -111,6 +111,7 @@ class PizzaSlicer(Block):
         self.outputs = [MessageOutput(owner=self)]
         self.nSlices = nSlices
         self.currentIdx = -1
+        self.prevPhase = INF
 
     def increment(self):
         """Increment current index by one."""
@@ -120,6 +121,11 @@ class PizzaSlicer(Block):
         phase = self.input.value
         idx = pizza_slice_number(phase, self.nSlices)
         missing = (idx - self.currentIdx) % self.nSlices
+        if missing == 0 and self.prevPhase - phase > PI:
+            # Full turn but still the same slice (e.g. only one slice)
+            missing = self.nSlices
+
+        self.prevPhase = phase
         for _ in range(missing):
             self.increment()
             self.output.send(self.currentIdx)
-- 
2.43.0


From 6d90e2bdc20a521b4bde9b2a94786d84e9b42d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 29/63] fix: micro rhythm does not jump a cycle at its borders

---
 klang/music/rhythm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/klang/music/rhythm.py b/klang/music/rhythm.py
index 00b6fc4..f194837 100644
--- a/klang/music/rhythm.py
+++ b/klang/music/rhythm.py
@@ -99,9 +99,8 @@ def format_notes(notes):
 
 def harmonize(func, phase, n):
     """Extend micro rhythm to full circle TAU."""
-    values = func(n * phase % TAU)
-    offset = int(n * phase / TAU) * TAU
-    return (values + offset) / n
+    cycle, rest = divmod(n * phase, TAU)
+    return (func(rest) + cycle * TAU) / n
 
 
 def phrase(func, phase, phrasing, n):
-- 
2.43.0


From 477e9a3d97e0dc87e195ea5288aea55a96558dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 30/63] fix: micro rhythm interpolation reaches the full circle

---
 klang/music/rhythm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/rhythm.py b/klang/music/rhythm.py
index f194837..3765509 100644
--- a/klang/music/rhythm.py
+++ b/klang/music/rhythm.py
@@ -137,7 +137,7 @@ class MicroRhyhtm(Block):
         nNotes = len(notes)
         duration = sum(notes)
         starts = cumsum(notes)
-        angles = (TAU / duration * np.r_[starts, duration]).astype(float)
+        angles = TAU * (np.r_[starts, duration] / duration).astype(float)
         return scipy.interpolate.interp1d(
             angles,
             np.linspace(0, TAU, nNotes + 1),
-- 
2.43.0


From 5a4286a91b5d0551caea5ea432fe03de396e92a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 31/63] fix: refuse note names which are not in scientific
 pitch notation

---
 klang/music/pitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/music/pitch.py b/klang/music/pitch.py
index 59080c3..a2ddefd 100644
--- a/klang/music/pitch.py
+++ b/klang/music/pitch.py
@@ -20,7 +20,7 @@ PITCH_NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
 CIRCLE_OF_FIFTHS = (7 * PITCH_CLASSES) % DODE
 """array: Pitches of the circle of fifths."""
 
-SCIENTIFIC_PITCH_NOTATION_RE = re.compile(r'([CDEFGAB])([#b]{0,2})([-0123456789]+)')
+SCIENTIFIC_PITCH_NOTATION_RE = re.compile(r'([CDEFGAB])(#{0,2}|b{0,2})(-?[0-9]+)')
 """re.pattern: Regex pattern for scientific note name."""
 
 ACCIDENTAL_SHIFTS = {
@@ -46,7 +46,7 @@ def note_name_2_pitch(noteName: str) -> int:
         >>> note_name_2_pitch('G##4')
         69
     """
-    match = SCIENTIFIC_PITCH_NOTATION_RE.match(noteName.title())
+    match = SCIENTIFIC_PITCH_NOTATION_RE.fullmatch(noteName.title())
     if not match:
         raise ValueError('Can not parse note %r' % noteName)
 
-- 
2.43.0


From 2d44580cde9749580fd4364526d9f48312e57339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 32/63] fix: Note.from_dict leaves the dictionary of the caller
 alone

---
 klang/messages.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/messages.py b/klang/messages.py
index 196508d..8036512 100644
--- a/klang/messages.py
+++ b/klang/messages.py
@@ -37,6 +37,7 @@ class Note(collections.namedtuple('Note', 'pitch velocity frequency')):
     @classmethod
     def from_dict(cls, dct):
         """Construct Note from dct."""
+        dct = dict(dct)
         if dct.pop('type') != cls.__name__:
             fmt = 'Can not construct Note from dict %s'
             raise ValueError(fmt % dct)
-- 
2.43.0


From a857dc0d62e522dba7c96f006244d34a1a3ebc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 33/63] fix: scale code of scales with repeated pitches

---
 klang/music/scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/scales.py b/klang/music/scales.py
index 100f3b1..1e4872f 100644
--- a/klang/music/scales.py
+++ b/klang/music/scales.py
@@ -60,7 +60,7 @@ assert np.all(
 def scale_2_code(scale: Sequence[int]) -> int:
     """Get binary scale code for scale."""
     pitches = scale_2_pitches(scale)
-    return MASK[pitches].sum()
+    return np.bitwise_or.reduce(MASK[pitches])
 
 
 def code_2_scale(code: int) -> np.ndarray:
-- 
2.43.0


From 761f8cc4e9237f317e40908867d128ad9986fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 34/63] fix: send non-contiguous arrays over the network

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index dc361d1..28d6293 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -70,7 +70,7 @@ def array_to_dict(arr):
     """Convert numpy array to JSON compatible dictionary using base 64
     encoding.
     """
-    raw = base64.b64encode(arr.data)
+    raw = base64.b64encode(arr.tobytes())
     return {
         'type': 'ndarray',
         'dtype': str(arr.dtype),
-- 
2.43.0


From a19affdc2b0d5ab1140665a0d26052ff4c3649af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 35/63] fix: receive audio buffers over the network without
 truncation

---
 klang/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 28d6293..b013a47 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -11,8 +11,10 @@ from klang.connections import MessageOutput, MessageInput
 from klang.messages import Note
 
 
-NETWORK_BUFFER_SIZE = 1024
-"""int: Network buffer size for receiving datagram messages."""
+NETWORK_BUFFER_SIZE = 65536
+"""int: Network buffer size for receiving datagram messages. Largest possible
+UDP datagram fits in. Audio buffers do not fit in 1024 bytes.
+"""
 
 LOGGER = logging.getLogger(__name__)
 """Logger: Network module logger."""
-- 
2.43.0


From 82e3d022c596ee1db118429ad6e986fd97c1073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 36/63] fix: malformed network datagrams do not stop the
 receiver

---
 klang/network.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index b013a47..9385bb2 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -148,15 +148,14 @@ class JsonCourier:
         """Yields all JSON decoded objects."""
         for data in receive_all_from(self.sock):
             #print('Received:', data)
-            string = data.decode()
-            while string:
-                try:
+            try:
+                string = data.decode()
+                while string:
                     obj, stop = self.decoder.raw_decode(string)
                     yield obj
                     string = string[stop:]
-                except json.JSONDecodeError as err:
-                    self.logger.error(err, exc_info=True)
-                    break
+            except Exception as err:  # Whatever got sent. pylint: disable=broad-except
+                self.logger.error(err, exc_info=True)
 
     def send_object(self, obj):
         """Send object to address as JSON."""
-- 
2.43.0


From c7bba1ba1e4bbd2cc5dd9e89955a232e3070eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 37/63] fix: string representation of keyboard blocks on Python
 3.9 and later

---
 klang/keyboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 5334f94..e35e7b0 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -59,7 +59,7 @@ class Keyboard(Block):
     def __str__(self):
         return '%s(%s)' % (
             self.__class__.__name__,
-            'running' if self.keyWorker.isAlive() else 'not running'
+            'running' if self.keyWorker.is_alive() else 'not running'
         )
 
 
-- 
2.43.0


From 4c0e92462effcd739bb831ea7f51709bb313f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 38/63] fix: number keys switch the temperament of the musical
 keyboard

---
 klang/keyboard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index e35e7b0..4180cf1 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -148,8 +148,8 @@ class MusicalKeyboard(Keyboard):
         except ValueError:
             return
 
-        if 0 <= nr < len(TEMPERAMENTS):
-            self.temperament = TEMPERAMENTS[nr]
+        if 0 <= nr < len(self.TEMPERAMENTS):
+            self.temperament = self.TEMPERAMENTS[nr]
             print('Switched to %s' % self.temperament)
 
     def bypass_other_keys(self, key):
-- 
2.43.0


From 9928bc314392a6b15c8a8da2b2df615cb1ffb4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 39/63] fix: releasing a key of the musical keyboard stops the
 note it started

---
 klang/keyboard.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 4180cf1..e333c90 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -81,9 +81,6 @@ class MusicalKeyboard(Keyboard):
     }
     """dict: QWERTZ keyboard character (str) -> Pitch number."""
 
-    SILENT = 0.
-    """float: Silent velocity value."""
-
     LOUDER = .1
     """float: Louder increment."""
 
@@ -109,13 +106,21 @@ class MusicalKeyboard(Keyboard):
         self.octave = REF_OCTAVE
         self.velocity = 1.
         self.temperament = defaultTemperament
+        self.playing = {}
 
     def play_note(self, char, noteOn=True):
         """Play music note (note-on and note-off)."""
+        if not noteOn:
+            # Octave or temperament could have been changed in the meantime
+            if char in self.playing:
+                self.output.send(self.playing.pop(char).silence())
+
+            return
+
         pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
         frequency = self.temperament.pitch_2_frequency(pitch)
-        velocity = self.velocity if noteOn else self.SILENT
-        note = Note(pitch, velocity=velocity, frequency=frequency)
+        note = Note(pitch, velocity=self.velocity, frequency=frequency)
+        self.playing[char] = note
         self.output.send(note)
 
     def change_octave(self, char):
-- 
2.43.0


From 346917d6c9e764b69039694037b7058b7197a009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 40/63] fix: octave of the musical keyboard stays within the
 valid pitches

---
 klang/keyboard.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index e333c90..e7f59df 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -81,6 +81,12 @@ class MusicalKeyboard(Keyboard):
     }
     """dict: QWERTZ keyboard character (str) -> Pitch number."""
 
+    LOWEST_OCTAVE = 0
+    """int: Lowest octave with valid pitches for all keys."""
+
+    HIGHEST_OCTAVE = 9
+    """int: Highest octave with valid pitches for all keys."""
+
     LOUDER = .1
     """float: Louder increment."""
 
@@ -127,11 +133,12 @@ class MusicalKeyboard(Keyboard):
         """Change current octave up / down."""
         if char == 'y':
             fmt = 'One octave down to %d'
-            self.octave -= 1
+            octave = self.octave - 1
         else:
             fmt = 'One octave up to %d'
-            self.octave += 1
+            octave = self.octave + 1
 
+        self.octave = clip(octave, self.LOWEST_OCTAVE, self.HIGHEST_OCTAVE)
         print(fmt % self.octave)
 
     def change_velocity(self, char):
-- 
2.43.0


From c3bdc53f38663a40a97367c7587b841282779bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 41/63] fix: MIDI output sends on its channel

---
 klang/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/midi.py b/klang/midi.py
index df26b93..788888f 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -53,7 +53,7 @@ class MidiOut(Block):
 
     def update(self):
         for note in self.input.receive():
-            msg = note_to_midi_message(note)
+            msg = note_to_midi_message(note, self.channel)
             self.midiout.send_message(msg)
 
     def __del__(self):
-- 
2.43.0


From a88d2ad85694ff388a41b62b2dd4faca4586698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 42/63] fix: quiet notes are MIDI note-ons

---
 klang/midi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klang/midi.py b/klang/midi.py
index 788888f..80d6e00 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -38,6 +38,9 @@ def note_to_midi_message(note, channel=0):
         statusByte = MIDI_NOTE_OFF + channel
 
     velocity = int(note.velocity * 127)
+    if note.on:
+        velocity = max(1, velocity)  # Zero velocity would be a note-off
+
     return [statusByte, note.pitch, velocity]
 
 
-- 
2.43.0


From bed7cd2068c5857fb22623786621afe9289b8a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 43/63] fix: dotted quarter notes have a filled note head

---
 klang/music/note_formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/note_formatting.py b/klang/music/note_formatting.py
index c27c0c2..8dc3dd4 100644
--- a/klang/music/note_formatting.py
+++ b/klang/music/note_formatting.py
@@ -126,7 +126,7 @@ def hstack(*texts, sep=''):
 def note_head(note):
     """Get note head."""
     return '%s%s' % (
-        WHITE_CIRCLE if note > QUARTER_NOTE else BLACK_CIRCLE,
+        WHITE_CIRCLE if note >= HALF_NOTE else BLACK_CIRCLE,
         DOT if note.numerator == 3 else ' '
     )
 
-- 
2.43.0


From 0e88af78d75c1f9036a4fc392cba81438c4a557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:17 +0000
Subject: [PATCH 44/63] fix: dotted half notes have a stem

---
 klang/music/note_formatting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/klang/music/note_formatting.py b/klang/music/note_formatting.py
index 8dc3dd4..4bddc1e 100644
--- a/klang/music/note_formatting.py
+++ b/klang/music/note_formatting.py
@@ -14,7 +14,7 @@ from klang.music.note_values import (
     DOUBLE_DOTTED_THIRTY_SECOND_NOTE, TRIPLE_DOTTED_THIRTY_SECOND_NOTE,
     SIXTY_FOURTH_NOTE, DOTTED_SIXTY_FOURTH_NOTE,
     DOUBLE_DOTTED_SIXTY_FOURTH_NOTE, TRIPLE_DOTTED_SIXTY_FOURTH_NOTE, HALF_NOTE,
-    Tuplet
+    WHOLE_NOTE, Tuplet
 )
 
 
@@ -135,7 +135,7 @@ def note_beam(note, beamDirection=BEAM_START):
     """Get top part of note stem with beam."""
     nBeams = BEAM_NUMBER[note]
     if nBeams == 0:
-        if note > HALF_NOTE:
+        if note >= WHOLE_NOTE:
             return '  '
 
         return STEM
@@ -171,7 +171,7 @@ def format_note(note, beamDirection=BEAM_START):
     Returns:
         str: Note string.
     """
-    stem = STEM if note <= HALF_NOTE else '  '
+    stem = STEM if note < WHOLE_NOTE else '  '
     return '\n'.join([
         note_beam(note, beamDirection),
         stem,
-- 
2.43.0


From c21869e2c8389d19c056a3114120460e5bbfbc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 45/63] fix: time signature of complex metres without grouping

---
 klang/music/note_formatting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/music/note_formatting.py b/klang/music/note_formatting.py
index 4bddc1e..39a4ab0 100644
--- a/klang/music/note_formatting.py
+++ b/klang/music/note_formatting.py
@@ -271,6 +271,7 @@ def format_time_signature(grouping):
         metre = sum_grouping(grouping)
     except TypeError:
         metre = grouping
+        grouping = [metre]
 
     if is_complex(metre):
         grouping = expand(grouping)
-- 
2.43.0


From b244d49c0dacdf5302b3b06d8e39270e5539441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 46/63] Revert "fix: single precision audio does not overflow
 32 bit samples"

This reverts commit 4c1267a566ebe3eabbd739abb62bfb2cdd6ee94d.
---
 klang/audio/wavfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index b0fb1e1..091a5b0 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -29,7 +29,7 @@ def convert_samples_to_int(samples, dtype=np.int16):
         raise ValueError('Already int samples!')
 
     maxValue = np.iinfo(dtype).max
-    return (maxValue * samples.astype(float)).astype(dtype)
+    return (maxValue * samples).astype(dtype)
 
 
 def load_wave(filepath):
@@ -66,5 +66,5 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     if audio.any():
         audio = normalize_values(audio)
 
-    samples = (audio.astype(float) * np.iinfo(dtype).max).astype(dtype)
+    samples = (audio * np.iinfo(dtype).max).astype(dtype)
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From 0235efad64f74f97b2a7027c2d651ce2a829d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 47/63] Revert "fix: micro rhythm interpolation reaches the
 full circle"

The interpolation range is at most one rounding step short of the full
circle, which no phase below the full circle exceeds.
---
 klang/music/rhythm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/rhythm.py b/klang/music/rhythm.py
index 3765509..f194837 100644
--- a/klang/music/rhythm.py
+++ b/klang/music/rhythm.py
@@ -137,7 +137,7 @@ class MicroRhyhtm(Block):
         nNotes = len(notes)
         duration = sum(notes)
         starts = cumsum(notes)
-        angles = TAU * (np.r_[starts, duration] / duration).astype(float)
+        angles = (TAU / duration * np.r_[starts, duration]).astype(float)
         return scipy.interpolate.interp1d(
             angles,
             np.linspace(0, TAU, nNotes + 1),
-- 
2.43.0


From 1fbfc73b4949ee80eb574f62964235a49d5065af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:22 +0000
Subject: [PATCH 48/63] fix: envelope gate refuses values without truth value

---
 klang/audio/_envelope.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 5cf3327..dbb7bbf 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -574,7 +574,10 @@ Envelope_init(Envelope *self, PyObject *args, PyObject *kwargs)
 static PyObject *
 Envelope_gate(Envelope *self, PyObject *args)
 {
-    bool trigger = PyObject_IsTrue(args);
+    const int trigger = PyObject_IsTrue(args);
+    if (trigger < 0)
+        return NULL;
+
     if (DEBUG) printf("Envelope_gate(%i)\n", trigger);
     if (trigger) {
         self->enabled = true;
-- 
2.43.0


From f3aba12203408897023c659c598a54a7d79ba259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:24 +0000
Subject: [PATCH 49/63] fix: Refuse notes whose frequency is not a number

---
 klang/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/messages.py b/klang/messages.py
index 8036512..0dae690 100644
--- a/klang/messages.py
+++ b/klang/messages.py
@@ -29,7 +29,7 @@ class Note(collections.namedtuple('Note', 'pitch velocity frequency')):
             raise ValueError('Invalid velocity %s!' % velocity)
         if frequency is None:
             frequency = temperament.pitch_2_frequency(pitch)
-        if frequency < 0:
+        if not frequency >= 0:
             raise ValueError('Invalid frequency %s!' % frequency)
 
         return super().__new__(cls, pitch, velocity, frequency)
-- 
2.43.0


From 128329a2189cf3f93dbbfdaa9ba6278901822e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 50/63] fix: Chords scraped wrongly beyond their second octave

The octave offset was added twice from the first pitch above the octave on,
also in the chords of the data base generated this way.
---
 klang/music/data/chords.csv | 26 +++++++++++++-------------
 klang/scraping.py           |  3 ++-
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/klang/music/data/chords.csv b/klang/music/data/chords.csv
index 955788f..99b87dc 100644
--- a/klang/music/data/chords.csv
+++ b/klang/music/data/chords.csv
@@ -1,5 +1,5 @@
 augmented chord,0,4,8
-augmented eleventh chord,0,4,7,10,14,30
+augmented eleventh chord,0,4,7,10,14,18
 augmented major seventh chord,0,4,8,11
 augmented seventh chord,0,4,8,10
 augmented sixth chord,0,6,100,16,30,124,40,55,58
@@ -7,46 +7,46 @@ diminished chord,0,3,6
 diminished major seventh chord,0,3,6,11
 diminished seventh chord,0,3,6,9
 dominant,0,4,7
-dominant eleventh chord,0,4,7,10,14,29
+dominant eleventh chord,0,4,7,10,14,17
 dominant minor ninth,0,4,7,10,13
 dominant ninth,0,4,7,10,14
 dominant parallel,0,3,7
 dominant seventh chord,0,4,7,10
 dominant seventh flat five chord,0,4,6,10
 dominant seventh sharp nine,0,4,7,10,15
-dominant thirteenth chord,0,4,7,10,14,29,33
+dominant thirteenth chord,0,4,7,10,14,17,21
 dream chord,0,5,6,7
-elektra chord,0,7,9,13,28
-farben chord,0,8,11,16,33
+elektra chord,0,7,9,13,16
+farben chord,0,8,11,16,21
 half-diminished seventh chord,0,3,6,10
 harmonic seventh chord,0,4,7,10
 hendrix chord,0,4,7,10,15
 leading-tone triad,0,3,6
 lydian chord,0,4,7,11,18
-magic chord,0,1,5,6,10,12,27,29
+magic chord,0,1,5,6,10,12,15,17
 major chord,0,4,7
-major eleventh chord,0,4,7,11,14,29
+major eleventh chord,0,4,7,11,14,17
 major ninth chord,0,4,7,11,14
 major seventh chord,0,4,7,11
 major seventh sharp eleventh chord,0,4,8,11,18
 major sixth chord,0,4,7,9
 major sixth ninth chord,0,4,7,9,14
-major thirteenth chord,0,4,7,11,14,30,33
+major thirteenth chord,0,4,7,11,14,18,21
 mediant,0,3,7
 minor chord,0,3,7
-minor eleventh chord,0,3,7,10,14,29
+minor eleventh chord,0,3,7,10,14,17
 minor major seventh chord,0,3,7,11
 minor ninth chord,0,3,7,10,14
 minor seventh chord,0,3,7,10
 minor sixth chord,0,3,7,9
 minor sixth ninth chord,0,3,7,9,14
-minor thirteenth chord,0,3,7,10,14,29,33
+minor thirteenth chord,0,3,7,10,14,17,21
 mu chord,0,2,4,7
-mystic chord,0,6,10,16,33,38
+mystic chord,0,6,10,16,21,26
 neapolitan chord,1,5,8
 ninth augmented fifth chord,0,4,8,10,14
 ninth flat fifth chord,0,4,6,10,14
-northern lights chord,1,2,8,12,27,30,31,34,35,40,55
+northern lights chord,1,2,8,12,15,18,19,22,23,28,31
 ode-to-napoleon hexachord,0,1,4,5,8,9
 p5,0,7
 petrushka chord,0,1,4,6,7,10
@@ -57,7 +57,7 @@ secondary leading-tone chord,0,3,6
 secondary supertonic chord,0,3,7
 seven six chord,0,4,7,9,10
 seventh suspension four chord,0,5,7,10
-so what chord,0,5,10,15,31
+so what chord,0,5,10,15,19
 subdominant,0,4,7
 subdominant parallel,0,3,7
 submediant,0,3,7
diff --git a/klang/scraping.py b/klang/scraping.py
index 90205c3..6c8a2c0 100644
--- a/klang/scraping.py
+++ b/klang/scraping.py
@@ -115,8 +115,9 @@ def pitch_classes_2_chord(pitchClasses):
         pitch = base + int(pc)
         if pitch < prev:
             base += SEMITONES_PER_OCTAVE
+            pitch += SEMITONES_PER_OCTAVE
 
-        chord.append(base + pitch)
+        chord.append(pitch)
         prev = pitch
 
     return np.array(chord)
-- 
2.43.0


From 108159522ad760d481e88a2a42bbad3a74cff04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 51/63] fix: Names of scraped alternatives piled up their
 numbers

---
 klang/scraping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/klang/scraping.py b/klang/scraping.py
index 6c8a2c0..0e942f7 100644
--- a/klang/scraping.py
+++ b/klang/scraping.py
@@ -90,10 +90,8 @@ def spawn_jobs(name, data, nameSeps=[' / ', ' or '], dataSeps=[' / ', ' or ', 'o
     """Detect synonym jobs. E.g. if there is a "a or b" in the name / data entry."""
     for nam in multi_seperator_pack(name, nameSeps):
         for i, dat in enumerate(multi_seperator_pack(data, dataSeps)):
-            if i > 0:
-                nam += ' %d' % i
-
-            yield nam.strip(), dat
+            number = ' %d' % i if i > 0 else ''
+            yield (nam + number).strip(), dat
 
 
 def pitch_classes_2_chord(pitchClasses):
-- 
2.43.0


From 057f55898bb90f805972e76da3449ad46c1ff879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 52/63] fix: Cached panning amplitudes could be altered by
 callers

---
 klang/audio/panning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/panning.py b/klang/audio/panning.py
index a4b1981..c70f890 100644
--- a/klang/audio/panning.py
+++ b/klang/audio/panning.py
@@ -75,10 +75,12 @@ def panning_amplitudes(panLevel, mode='constant_power', panLaw=None):
             centerValue = np.sqrt(.5 * np.cos(TAU / 8))
             alpha = pan_law_exponent(panLaw, centerValue)
 
-    return np.array([
+    amplitudes = np.array([
         [left ** alpha],
         [right ** alpha],
     ])
+    amplitudes.setflags(write=False)  # Cached
+    return amplitudes
 
 
 def pan_signal(signal, panLevel, mode='constant_power', panLaw=None):
-- 
2.43.0


From aca5485099358d744b980487376e0ad3c39212e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 53/63] fix: Mixers got a channel for operands they refused

---
 klang/audio/mixer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klang/audio/mixer.py b/klang/audio/mixer.py
index fcbbdb5..47f7f49 100644
--- a/klang/audio/mixer.py
+++ b/klang/audio/mixer.py
@@ -2,7 +2,7 @@
 from klang.audio.helpers import MONO_SILENCE, STEREO_SILENCE
 from klang.audio.panning import CENTER, panning_amplitudes
 from klang.block import fetch_output, Block
-from klang.connections import Input
+from klang.connections import Input, validate_connection
 
 
 __all__ = ['Mixer', 'StereoMixer']
@@ -52,8 +52,9 @@ class Mixer(Block):
         """Inplace add a new block.output or output to the mixer. Return mixer
         for concatenation.
         """
-        self.add_new_channel()
         output = fetch_output(other)
+        validate_connection(output, Input())  # No channel for refused operands
+        self.add_new_channel()
         output.connect(self.inputs[-1])
         return self
 
-- 
2.43.0


From b5b567f748fb0a948544fbea5ba150b7e18de79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 54/63] fix: Sequencers did not count channels added later

---
 klang/sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index 87d11cb..978d164 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -288,7 +288,7 @@ class Sequencer(Composite):
     @property
     def nChannels(self) -> int:
         """Number of channels."""
-        return len(self.pattern)
+        return len(self.sequences)
 
     def apply_micro_rhythm(self, microRhythm, channel):
         """Apply micro rhythm to all or one specific sequence(s)."""
-- 
2.43.0


From cd3813fc9454b127e4845840ff24829053353e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 55/63] fix: Notes hung after the limit of MaxNotes was raised

---
 klang/note_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/note_effects.py b/klang/note_effects.py
index e7b9c80..16ee169 100644
--- a/klang/note_effects.py
+++ b/klang/note_effects.py
@@ -58,7 +58,7 @@ class MaxNotes(Block):
         self.inputs = [MessageInput(owner=self)]
         self.outputs = [MessageOutput(owner=self)]
         self.nNotes = nNotes
-        self.activeNotes = collections.deque([], maxlen=nNotes + 1)
+        self.activeNotes = collections.deque()
 
     def update(self):
         for newNote in self.input.receive():
-- 
2.43.0


From 4e2ba30e7039f729b4a95267b85c3e4d41544228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 56/63] fix: Notes ended late after the duration of
 NoteLengthener was shortened

---
 klang/note_effects.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/klang/note_effects.py b/klang/note_effects.py
index 16ee169..ab2b9bf 100644
--- a/klang/note_effects.py
+++ b/klang/note_effects.py
@@ -26,13 +26,11 @@ class NoteLengthener(Block, ClockMixin):
 
     def outdated_notes(self, now: float) -> Generator[Note, None, None]:
         """Iterate over outdated notes."""
-        while self.activeNotes:
-            end, note = self.activeNotes[0]  # Peek
-            if now < end:
-                return
-
-            yield note
-            self.activeNotes.popleft()
+        for entry in list(self.activeNotes):
+            end, note = entry
+            if now >= end:
+                self.activeNotes.remove(entry)
+                yield note
 
     def update(self):
         now = self.clock()
-- 
2.43.0


From 7081078191deda1e700e81d0fbef15bc1034d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 57/63] fix: Temperaments detuned arrays of low unsigned
 pitches

---
 klang/music/tunings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/music/tunings.py b/klang/music/tunings.py
index 2f72fd8..2f8180a 100644
--- a/klang/music/tunings.py
+++ b/klang/music/tunings.py
@@ -66,7 +66,9 @@ class Temperament:
     def pitch_2_frequency(self, pitch):
         """Convert pitch number to frequency value."""
         octave, note = np.divmod(pitch, DODE)
-        return self.baseFrequency * self.ratios[note] * (2. ** (octave - REF_OCTAVE))
+        # As floats, so that unsigned pitches do not wrap around
+        exponent = np.subtract(octave, REF_OCTAVE, dtype=float)
+        return self.baseFrequency * self.ratios[note] * (2. ** exponent)
 
     def __str__(self):
         infos = []
-- 
2.43.0


From b625cd75b936d172780a9cb4992f9af789ade976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 58/63] fix: Notes with numpy numbers could not be serialized

---
 klang/messages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/messages.py b/klang/messages.py
index 0dae690..425c71a 100644
--- a/klang/messages.py
+++ b/klang/messages.py
@@ -72,8 +72,8 @@ class Note(collections.namedtuple('Note', 'pitch velocity frequency')):
         return dct
 
     def to_json(self):
-        """Serialize as JSON string."""
-        return json.dumps(self.to_dict())
+        """Serialize as JSON string (numpy scalars as ordinary numbers)."""
+        return json.dumps(self.to_dict(), default=lambda number: number.item())
 
     def __str__(self):
         return 'Note(pitch=%d, velocity=%.1f, frequency=%.1f Hz)' % self
-- 
2.43.0


From 5e0a5e74f1b3029c17e8d228ba4d44524103e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:19 +0000
Subject: [PATCH 59/63] fix: Clock with a note value as frequency jumped at
 buffer borders

---
 klang/audio/sync.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index 7444d75..7ababba 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -3,6 +3,7 @@ from klang.audio.helpers import get_silence, get_time
 from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.constants import TAU
+from klang.music.tempo import compute_rate
 
 
 class Clock(Block):
@@ -33,7 +34,8 @@ class Clock(Block):
     def update(self):
         t = get_time(BUFFER_SIZE)
         currentPhase = self.phasor.currentPhase
-        phase = (TAU * self.frequency * t + currentPhase) % TAU
+        frequency = compute_rate(self.frequency)  # Same as phasor
+        phase = (TAU * frequency * t + currentPhase) % TAU
         if self.edge == 'rising':
             active = (phase < self.duty)
         else:
-- 
2.43.0


From 5bdfeca56627b9a442c7655564aefa79c673bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 60/63] fix: plot_graph() drew on the current axes instead of
 the given ones

---
 klang/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/graph.py b/klang/graph.py
index 8a9a658..8cbe164 100644
--- a/klang/graph.py
+++ b/klang/graph.py
@@ -214,10 +214,10 @@ def plot_graph(graph, positions, ax=None, edgeColor='black'):
     for node in range(n):
         for child in active_edges(graph, node):
             #print(node, '->', child)
-            plot_edge(positions[node], positions[child], color=edgeColor)
+            plot_edge(positions[node], positions[child], color=edgeColor, ax=ax)
 
     for i, pos in enumerate(positions):
-        plot_node(pos, label=str(i))
+        plot_node(pos, label=str(i), ax=ax)
 
     ax.axis('off')
     ax.set_aspect('equal')
-- 
2.43.0


From c6a0e6f0b369a680bc74989471bba140d0e7e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 61/63] fix: normalize_values() lost or flipped integer audio
 at its minimum

---
 klang/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/math.py b/klang/math.py
index db5d354..69376bc 100644
--- a/klang/math.py
+++ b/klang/math.py
@@ -13,7 +13,8 @@ def wrap(phase):
 
 def normalize_values(array):
     """Normalize array values to [-1., 1.]."""
-    maxAmplitude = np.abs(array).max()
+    # As floats, integers have no absolute value of their minimum
+    maxAmplitude = np.abs(np.asarray(array, dtype=float)).max()
     if maxAmplitude == 0:
         # TODO(atheler): Or just return array?
         raise ValueError('Zero amplitude! Can not normalize!')
-- 
2.43.0


From 45661272f634ce0528be5af3a9849208eb389526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 62/63] fix: releasing a hidden note retriggered the voice of
 the monophonic synthesizer

---
 klang/audio/synthesizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index 594ff1d..be76922 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -166,10 +166,15 @@ class MonophonicSynthesizer(Synthesizer):
         super().__init__()
         self.voice = voice
         self.noteScheduler = NoteScheduler(policy)
+        self.currentNote = None
 
     def process_note(self, note):
-        note = self.noteScheduler.get_next_note(note)
-        self.voice.input.push(note)
+        nextNote = self.noteScheduler.get_next_note(note)
+        if nextNote is self.currentNote and nextNote is not note:
+            return  # Already playing, do not retrigger voice
+
+        self.voice.input.push(nextNote)
+        self.currentNote = nextNote
 
     def update(self):
         super().update()
-- 
2.43.0


From 0aad61da67f7b12468096da3823c300dccdbaeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 63/63] fix: refused micro rhythm left the sequence without its
 phase

---
 klang/sequencer.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index 978d164..681b139 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -10,7 +10,13 @@ import numpy as np
 from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.composite import Composite
-from klang.connections import MessageInput, MessageOutput, MessageRelay, Relay
+from klang.connections import (
+    InputAlreadyConnected,
+    MessageInput,
+    MessageOutput,
+    MessageRelay,
+    Relay,
+)
 from klang.constants import INF, PI, TAU
 from klang.messages import Note
 from klang.music.note_values import QUARTER_NOTE, SIXTEENTH_NOTE
@@ -219,6 +225,12 @@ class Sequence(Composite):
 
     def apply_micro_rhythm(self, microRhythm: MicroRhyhtm):
         """Patch microRhythm to sequence."""
+        src = microRhythm.input.incomingConnection
+        if src is not None and src is not self.phaseOut:
+            # Refuse before the phase insert gets disconnected
+            msg = '%s is already connected to another output!' % microRhythm.input
+            raise InputAlreadyConnected(msg)
+
         self.disconnect_phase_insert()
         self.phaseOut | microRhythm | self.phaseIn
         self.sequencer.update_internal_exec_order()
-- 
2.43.0

