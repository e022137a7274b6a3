From ca6041dbfc6f4857a1cb3c39b555602a39a7a002 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 01/32] fix: Viterbi algorithm with parallel transitions picks
 the winning input

The backtracking recovered the input from the (from, to) state pair, which
is ambiguous when two inputs lead to the same next state.
---
 src/komm/_finite_state_machine/MealyMachine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index fb01942..a641f24 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -211,6 +211,7 @@ class MealyMachine:
         observed = np.asarray(observed)
         L, num_states = observed.shape[0], self.num_states
         choices = np.zeros((L, num_states), dtype=int)
+        inputs = np.zeros((L, num_states), dtype=int)
         metrics = np.full((L + 1, num_states), fill_value=np.inf)
         if initial_metrics is None:
             metrics[0, :] = np.zeros(num_states, dtype=float)
@@ -218,20 +219,21 @@ class MealyMachine:
             metrics[0, :] = initial_metrics
         for t, z in enumerate(observed):
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                edges = zip(self.transitions[s0], self.outputs[s0])
+                for x, (s1, y) in enumerate(edges):
                     candidate_metrics = metrics[t, s0] + metric_function(y, z)
                     if candidate_metrics < metrics[t + 1, s1]:
                         metrics[t + 1, s1] = candidate_metrics
                         choices[t, s1] = s0
+                        inputs[t, s1] = x
 
         # Backtrack
         input_hat = np.empty((L, num_states), dtype=int)
         for final_state in range(num_states):
             s1 = final_state
             for t in reversed(range(L)):
-                s0 = choices[t, s1]
-                input_hat[t, final_state] = self.input_edges[s0, s1]
-                s1 = s0
+                input_hat[t, final_state] = inputs[t, s1]
+                s1 = choices[t, s1]
 
         return input_hat, metrics[L, :]
 
-- 
2.43.0


From 76706b6e6774d637c092d4da99e9d080735628c4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 02/32] fix: forward-backward algorithm accounts for parallel
 transitions

Branch metrics of inputs sharing the same pair of states overwrote each
other instead of being accumulated.
---
 src/komm/_finite_state_machine/MealyMachine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index a641f24..e62be1f 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -320,6 +320,7 @@ class MealyMachine:
         if final_state_distribution is None:
             final_state_distribution = np.ones(num_states) / num_states
 
+        log_edges = np.full((L, num_input_symbols, num_states), fill_value=-np.inf)
         log_gamma = np.full((L, num_states, num_states), fill_value=-np.inf)
         log_alpha = np.full((L + 1, num_states), fill_value=-np.inf)
         log_beta = np.full((L + 1, num_states), fill_value=-np.inf)
@@ -332,7 +333,10 @@ class MealyMachine:
         for t, z in enumerate(observed):
             for x, s0 in product(range(num_input_symbols), range(num_states)):
                 y, s1 = self.outputs[s0, x], self.transitions[s0, x]
-                log_gamma[t, s0, s1] = log_input_priors[t, x] + metric_function(y, z)
+                log_edges[t, x, s0] = log_input_priors[t, x] + metric_function(y, z)
+                log_gamma[t, s0, s1] = np.logaddexp(
+                    log_gamma[t, s0, s1], log_edges[t, x, s0]
+                )
 
         for t in range(0, L - 1):
             for s1 in range(num_states):
@@ -353,7 +357,7 @@ class MealyMachine:
                 for s0 in range(num_states):
                     s1 = self.transitions[s0, x]
                     edge_labels[s0] = (
-                        log_alpha[t, s0] + log_gamma[t, s0, s1] + log_beta[t + 1, s1]
+                        log_alpha[t, s0] + log_edges[t, x, s0] + log_beta[t + 1, s1]
                     )
                 log_input_posteriors[t, x] = np.logaddexp.reduce(edge_labels)
 
-- 
2.43.0


From 86521017082eda5bcb4c44c9a5e60b20616e1d17 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 03/32] fix: streaming Viterbi follows the survivor of the best
 state

The decision was read from the previous survivor of the state that is best
now (not from the survivor leading to it), the initial state was lost in
the path memory, and parallel transitions were ambiguous.
---
 .../_finite_state_machine/MealyMachine.py     | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index e62be1f..bfea417 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -251,7 +251,7 @@ class MealyMachine:
 
             metric_function: The metric function $\mathcal{Y} \times \mathcal{Z} \to \mathbb{R}$.
 
-            memory: The metrics for each state. It must be a dictionary containing two keys: `'paths'`, a 2D-array of integers of shape $|\mathcal{S}| \times (\tau + 1)$; and `'metrics'`, a 2D-array of floats of shape $|\mathcal{S}| \times (\tau + 1)$. This dictionary is updated in-place by this method.
+            memory: The metrics for each state. It must be a dictionary containing two keys: `'paths'`, a 2D-array of integers of shape $|\mathcal{S}| \times (\tau + 1)$, whose rows are the most recent inputs of the survivor paths; and `'metrics'`, a 2D-array of floats of shape $|\mathcal{S}| \times (\tau + 1)$. This dictionary is updated in-place by this method.
 
         Returns:
             input_hat: The most probable input sequence $\hat{x} \in \mathcal{X}^L$
@@ -262,25 +262,23 @@ class MealyMachine:
         for t, z in enumerate(observed):
             new_metrics = np.full(num_states, fill_value=np.inf)
             choices = np.zeros(num_states, dtype=int)
+            inputs = np.zeros(num_states, dtype=int)
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                edges = zip(self.transitions[s0], self.outputs[s0])
+                for x, (s1, y) in enumerate(edges):
                     candidate_metric = memory["metrics"][s0, -1] + metric_function(y, z)
                     if candidate_metric < new_metrics[s1]:
                         new_metrics[s1] = candidate_metric
                         choices[s1] = s0
-
-            s_star = np.argmin(new_metrics)
-            s0, s1 = memory["paths"][s_star, :2]
-            input_hat[t] = self.input_edges[s0, s1]
+                        inputs[s1] = x
 
             memory["metrics"] = np.roll(memory["metrics"], shift=-1, axis=1)
             memory["metrics"][:, -1] = new_metrics
-            memory["paths"] = np.roll(memory["paths"], shift=-1, axis=1)
+            memory["paths"] = np.roll(memory["paths"][choices], shift=-1, axis=1)
+            memory["paths"][:, -1] = inputs
 
-            paths_copy = np.copy(memory["paths"])
-            for s1, s0 in enumerate(choices):
-                memory["paths"][s1, :-1] = paths_copy[s0, :-1]
-                memory["paths"][s1, -1] = s1
+            s_star = np.argmin(new_metrics)
+            input_hat[t] = memory["paths"][s_star, 0]
 
         return input_hat
 
-- 
2.43.0


From 454d5925bc313ef2db2814dbf600cbbb1123ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 04/32] fix: BCJR decoder outputs the bits of each input symbol
 in message order

Input symbols are numbered LSB-first by the encoder, but the posteriors
were marginalised with an MSB-first labeling (wrong for two or more input
bits per step).
---
 src/komm/_error_control_decoders/BCJRDecoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_decoders/BCJRDecoder.py b/src/komm/_error_control_decoders/BCJRDecoder.py
index d82c526..b471ec8 100644
--- a/src/komm/_error_control_decoders/BCJRDecoder.py
+++ b/src/komm/_error_control_decoders/BCJRDecoder.py
@@ -8,7 +8,7 @@ from .. import abc
 from .._error_control_convolutional.TerminatedConvolutionalCode import (
     TerminatedConvolutionalCode,
 )
-from .._labelings.NaturalLabeling import NaturalLabeling
+from .._labelings.Labeling import Labeling
 from .._util.bit_operations import int_to_bits
 from .._util.decorators import blockwise, vectorize, with_pbar
 from .util import get_pbar
@@ -47,7 +47,7 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         )
         self._post_process_output = self.code.strategy.bcjr_post_process_output
         self._cache_polar = (-1) ** int_to_bits(range(2**n), width=n)
-        self._labeling = NaturalLabeling(k)
+        self._labeling = Labeling(int_to_bits(range(2**k), width=k))
 
     def _metric_function(self, y: int, z: float) -> float:
         return 0.5 * np.dot(self._cache_polar[y], z)
-- 
2.43.0


From 0704c2e5175081f6b51d33f794abe9622cb5be71 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 05/32] fix: syndromes of non-systematic cyclic codes agree
 with the check matrix

The coset leaders are indexed by the syndrome given by the check matrix,
but check() returned the polynomial remainder, so that syndrome-table
decoding of non-systematic cyclic codes failed.
---
 src/komm/_error_control_block/CyclicCode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/komm/_error_control_block/CyclicCode.py b/src/komm/_error_control_block/CyclicCode.py
index 0e9d615..3212cd5 100644
--- a/src/komm/_error_control_block/CyclicCode.py
+++ b/src/komm/_error_control_block/CyclicCode.py
@@ -208,6 +208,9 @@ class CyclicCode(abc.BlockCode):
             </span>
         """
 
+        if not self.systematic:
+            return super().check(input)
+
         @blockwise(self.length)
         @vectorize
         def check(r: npt.NDArray[np.integer]) -> npt.NDArray[np.integer]:
-- 
2.43.0


From 36b097aae5a91951e94c9cf6c02f4319c671c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 06/32] fix: coset leaders of codes without redundancy no
 longer loop forever

The searches only stopped after adding a leader, which never happens when
the code has a single coset.
---
 src/komm/_error_control_block/base.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/komm/_error_control_block/base.py b/src/komm/_error_control_block/base.py
index 7b8dcda..a81d54f 100644
--- a/src/komm/_error_control_block/base.py
+++ b/src/komm/_error_control_block/base.py
@@ -204,7 +204,7 @@ class BlockCode(ABC):
             delay=2.5,
             initial=1,
         )
-        while True:
+        while count < 2**m:
             next_syndromes: list[int] = []
             for s in syndromes:
                 for j, h in enumerate(H_cols):
@@ -217,11 +217,10 @@ class BlockCode(ABC):
                     next_syndromes.append(s0)
                     count += 1
                     pbar.update()
-                    if count == 2**m:
-                        self._cached_coset_leaders = True
-                        pbar.close()
-                        return leaders
             syndromes = next_syndromes
+        self._cached_coset_leaders = True
+        pbar.close()
+        return leaders
 
     @cache
     @abstractmethod
@@ -245,8 +244,8 @@ class BlockCode(ABC):
             delay=2.5,
             initial=1,
         )
-        while True:
-            distribution[weight] = len(syndromes)
+        distribution[weight] = len(syndromes)
+        while count < 2**m:
             next_syndromes: list[int] = []
             for s in syndromes:
                 for h in H_cols:
@@ -257,12 +256,11 @@ class BlockCode(ABC):
                     next_syndromes.append(s0)
                     count += 1
                     pbar.update()
-                    if count == 2**m:
-                        distribution[weight + 1] = len(next_syndromes)
-                        pbar.close()
-                        return distribution
             syndromes = next_syndromes
             weight += 1
+            distribution[weight] = len(syndromes)
+        pbar.close()
+        return distribution
 
     @cache
     @abstractmethod
-- 
2.43.0


From 49f3a7c22939cc3329324bc82d06bdd3a8ed1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 07/32] fix: LZSS decoding stops at an incomplete last token

The payload of a truncated token was reinterpreted as flags of further
tokens, producing symbols that were never encoded.
---
 src/komm/_lossless_coding/LempelZivSSCode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 4146c43..e27dff5 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -234,11 +234,15 @@ class LempelZivSSCode:
                     l = int(symbols_to_integer(target[i : i + l_width], base=calY)) + 1
                     i += l_width
                     tokens.append((1, p, l))
+                else:  # Incomplete token
+                    break
             else:  # Literal
                 if i + x_width <= target.size:
                     x = int(symbols_to_integer(target[i : i + x_width], base=calY))
                     i += x_width
                     tokens.append((0, x))
+                else:  # Incomplete token
+                    break
 
         return tokens
 
-- 
2.43.0


From 9b41115871c6aabc5d275ab027fc5ef3b7b35d3c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 08/32] fix: LZ78 decoding ignores an incomplete last pointer
 or symbol

A truncated pointer or symbol was read as if it were complete, producing
symbols that were never encoded.
---
 src/komm/_lossless_coding/LempelZiv78Code.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/LempelZiv78Code.py b/src/komm/_lossless_coding/LempelZiv78Code.py
index 786bfcc..eaf3fd2 100644
--- a/src/komm/_lossless_coding/LempelZiv78Code.py
+++ b/src/komm/_lossless_coding/LempelZiv78Code.py
@@ -118,9 +118,11 @@ class LempelZiv78Code:
         i = 0
         while i < target.size:
             k = ceil(log(len(tokens) + 1, calY))
+            if i + k > target.size:  # Incomplete pointer
+                break
             p = int(symbols_to_integer(target[i : i + k], base=calY))
             i += k
-            if i < target.size:
+            if i + M <= target.size:
                 x = int(symbols_to_integer(target[i : i + M], base=calY))
             else:
                 x = -1
-- 
2.43.0


From 928948b63b9602609bca9eca7eae3b8b246a03b9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 09/32] fix: LZW decoding ignores an incomplete first pointer

As for any later pointer; it was read as if it were complete.
---
 src/komm/_lossless_coding/LempelZivWelchCode.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZivWelchCode.py b/src/komm/_lossless_coding/LempelZivWelchCode.py
index 874c564..c41f077 100644
--- a/src/komm/_lossless_coding/LempelZivWelchCode.py
+++ b/src/komm/_lossless_coding/LempelZivWelchCode.py
@@ -100,13 +100,12 @@ class LempelZivWelchCode:
         calX, calY = self.source_cardinality, self.target_cardinality
         input = np.asarray(input, dtype=int)
 
-        if input.size == 0:
-            return np.array([], dtype=int)
-
         dictionary: dict[int, Word] = {s: (s,) for s in range(calX)}
         output: list[int] = []
 
         k = ceil(log(calX, calY))
+        if input.size < k:  # Empty input or incomplete first pointer
+            return np.array([], dtype=int)
         pointer = symbols_to_integer(input[:k], base=calY)
         old = dictionary[pointer]
         output.extend(old)
-- 
2.43.0


From 39f7c3411a839230a160078698cf8a1c66f879d3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 10/32] fix: hard Reed decoder accepts any integer type

Words of type uint8 or bool made the in-place XOR fail.
---
 src/komm/_error_control_decoders/ReedDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_decoders/ReedDecoder.py b/src/komm/_error_control_decoders/ReedDecoder.py
index f567cee..b76ef6a 100644
--- a/src/komm/_error_control_decoders/ReedDecoder.py
+++ b/src/komm/_error_control_decoders/ReedDecoder.py
@@ -48,7 +48,7 @@ class ReedDecoder(abc.BlockDecoder[ReedMullerCode]):
         @vectorize
         def decode_hard(r: npt.NDArray[np.integer]):
             u_hat = np.empty(self.code.dimension, dtype=int)
-            bx = r.copy()
+            bx = r.astype(int)
             for i, partition in enumerate(self._reed_partitions):
                 checksums = np.count_nonzero(bx[partition], axis=1) % 2
                 u_hat[i] = np.count_nonzero(checksums) > len(checksums) // 2
-- 
2.43.0


From 56d3544aae9c9c5c76401f0c23d36eb14d9bbe79 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 11/32] fix: binary symmetric and erasure channels accept
 boolean bits

Boolean arithmetic turned the flip of a 1 into a 1, and the erasure symbol
was stored as 1.
---
 src/komm/_channels/BinaryErasureChannel.py   | 2 +-
 src/komm/_channels/BinarySymmetricChannel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 4627fe5..06c5f82 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -113,6 +113,6 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
         epsilon = self.erasure_probability
         input = np.asarray(input)
         erasure_pattern = self.rng.random(input.shape) < epsilon
-        output = np.copy(input)
+        output = input.astype(int)
         output[erasure_pattern] = 2
         return output
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 7ebb38a..3f1360e 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -112,6 +112,6 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
             array([1, 1, 1, 0, 1, 0, 1, 0, 0, 0])
         """
         p = self.crossover_probability
-        input = np.array(input)
+        input = np.array(input, dtype=int)
         error_pattern = self.rng.random(input.shape) < p
         return (input + error_pattern) % 2
-- 
2.43.0


From fb62047365015ed692952095b57cd084a9ef1010 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 12/32] fix: zero termination of memoryless convolutional codes

With memory order zero, building the (empty) tail failed and slicing it off
discarded the whole message.
---
 .../TerminatedConvolutionalCode.py                        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 086277e..62810cb 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -243,6 +243,8 @@ class ZeroTermination(TerminationStrategy):
         h = self.num_blocks
         μ = self.convolutional_code.memory_order
         σ = self.convolutional_code.degree
+        if μ == 0:  # Memoryless code: no tail
+            return np.zeros((h * self.convolutional_code.num_input_bits, 0), dtype=int)
         A_mat, B_mat, _, _ = self.convolutional_code.state_space_representation()
         A_pow = [np.eye(σ, dtype=int)]
         for _ in range(1, h + μ):
@@ -269,8 +271,7 @@ class ZeroTermination(TerminationStrategy):
     def viterbi_post_process_output(
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.integer]:
-        μ = self.convolutional_code.memory_order
-        x_hat = xs_hat[:, 0][:-μ]
+        x_hat = xs_hat[: self.num_blocks, 0]
         return x_hat
 
     def bcjr_initial_final_distributions(
@@ -283,8 +284,7 @@ class ZeroTermination(TerminationStrategy):
     def bcjr_post_process_output(
         self, posteriors: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.floating]:
-        μ = self.convolutional_code.memory_order
-        return posteriors[:-μ]
+        return posteriors[: self.num_blocks]
 
 
 class TailBiting(TerminationStrategy):
-- 
2.43.0


From 1a41ff7dc584a74000eb23d498a89da9e9eda6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 13/32] fix: syndrome table decoder accepts any integer type

---
 src/komm/_error_control_decoders/SyndromeTableDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_decoders/SyndromeTableDecoder.py b/src/komm/_error_control_decoders/SyndromeTableDecoder.py
index 1b5b9ad..aa62de6 100644
--- a/src/komm/_error_control_decoders/SyndromeTableDecoder.py
+++ b/src/komm/_error_control_decoders/SyndromeTableDecoder.py
@@ -40,7 +40,7 @@ class SyndromeTableDecoder(abc.BlockDecoder[abc.BlockCode]):
         def decode(r: npt.NDArray[np.integer]):
             s = self.code.check(r)
             e_hat = self._coset_leaders[bits_to_int(s)]
-            v_hat = np.bitwise_xor(r, e_hat)
+            v_hat = np.bitwise_xor(r.astype(int), e_hat)
             u_hat = self.code.project_word(v_hat)
             return u_hat
 
-- 
2.43.0


From 4b3202cc5a0addd38779eeaf5e0391c600a33487 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 14/32] fix: hard decisions of PAM and ASK saturate for points
 beyond the integer range

---
 src/komm/_constellations/ASKConstellation.py | 4 ++--
 src/komm/_constellations/PAMConstellation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_constellations/ASKConstellation.py b/src/komm/_constellations/ASKConstellation.py
index 8c6ca1d..a931daf 100644
--- a/src/komm/_constellations/ASKConstellation.py
+++ b/src/komm/_constellations/ASKConstellation.py
@@ -166,8 +166,8 @@ class ASKConstellation(abc.Constellation[np.complexfloating]):
         """
         M, A, φ = self._order, self._base_amplitude, self._phase_offset
         normalized = np.real(np.multiply(received, np.exp(-2j * np.pi * φ))) / A
-        indices = np.round(normalized).astype(int)
-        indices = np.clip(indices, 0, M - 1)
+        indices = np.round(normalized)
+        indices = np.clip(indices, 0, M - 1).astype(int)
         return indices
 
     def closest_symbols(
diff --git a/src/komm/_constellations/PAMConstellation.py b/src/komm/_constellations/PAMConstellation.py
index 84d6389..b5d0d92 100644
--- a/src/komm/_constellations/PAMConstellation.py
+++ b/src/komm/_constellations/PAMConstellation.py
@@ -152,8 +152,8 @@ class PAMConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         normalized = np.asarray(received, dtype=float) / self._delta
-        indices = np.round(normalized + (M - 1) / 2).astype(int)
-        indices = np.clip(indices, 0, M - 1)
+        indices = np.round(normalized + (M - 1) / 2)
+        indices = np.clip(indices, 0, M - 1).astype(int)
         return indices
 
     def closest_symbols(self, received: npt.ArrayLike) -> npt.NDArray[np.floating]:
-- 
2.43.0


From d4b56deed2e93c2595f779bb407fcb5a24bc982d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 15/32] fix: progress bars of decoders and LZ77 are closed, so
 concurrent calls cannot fail

tqdm keeps every open bar in a shared weak set. A bar dropped without being
closed removes itself from that set whenever its last reference goes away,
possibly in the middle of another thread's (locked) iteration over it, which
then raised RuntimeError out of that thread's decode or encode call.
---
 src/komm/_error_control_decoders/BCJRDecoder.py      | 6 ++++--
 src/komm/_error_control_decoders/BerlekampDecoder.py | 6 ++++--
 src/komm/_error_control_decoders/ViterbiDecoder.py   | 6 ++++--
 src/komm/_lossless_coding/LempelZiv77Code.py         | 1 +
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/komm/_error_control_decoders/BCJRDecoder.py b/src/komm/_error_control_decoders/BCJRDecoder.py
index b471ec8..bf6d1a1 100644
--- a/src/komm/_error_control_decoders/BCJRDecoder.py
+++ b/src/komm/_error_control_decoders/BCJRDecoder.py
@@ -70,10 +70,11 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
             array([1, 1, 0])
         """
         n = self.code.convolutional_code.num_output_bits
+        pbar = get_pbar(np.size(input) // self.code.length, "BCJR")
 
         @blockwise(self.code.length)
         @vectorize
-        @with_pbar(get_pbar(np.size(input) // self.code.length, "BCJR"))
+        @with_pbar(pbar)
         def decode(li: npt.NDArray[np.floating]) -> npt.NDArray[np.floating]:
             symbol_posteriors = self._fsm.forward_backward(
                 observed=li.reshape(-1, n),
@@ -85,7 +86,8 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
             lo = self._labeling.marginalize(symbol_posteriors).reshape(-1)
             return lo
 
-        output = decode(input)
+        with pbar:
+            output = decode(input)
         if self.output_type == "hard":
             return (output < 0.0).astype(int)
         else:  # if self.output_type == "soft":
diff --git a/src/komm/_error_control_decoders/BerlekampDecoder.py b/src/komm/_error_control_decoders/BerlekampDecoder.py
index 5182570..4c8fb0a 100644
--- a/src/komm/_error_control_decoders/BerlekampDecoder.py
+++ b/src/komm/_error_control_decoders/BerlekampDecoder.py
@@ -35,10 +35,11 @@ class BerlekampDecoder(abc.BlockDecoder[BCHCode]):
             >>> decoder.decode([0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0])
             array([0, 0, 0, 0, 0])
         """
+        pbar = get_pbar(np.size(input) // self.code.length, "Berlekamp")
 
         @blockwise(self.code.length)
         @vectorize
-        @with_pbar(get_pbar(np.size(input) // self.code.length, "Berlekamp"))
+        @with_pbar(pbar)
         def decode(r: npt.NDArray[np.integer]):
             r_poly = BinaryPolynomial.from_coefficients(r)
             syndrome = self.code.bch_syndrome(r_poly)
@@ -52,7 +53,8 @@ class BerlekampDecoder(abc.BlockDecoder[BCHCode]):
             u_hat = self.code.project_word(v_hat)
             return u_hat
 
-        return decode(input)
+        with pbar:
+            return decode(input)
 
 
 def berlekamp_algorithm(
diff --git a/src/komm/_error_control_decoders/ViterbiDecoder.py b/src/komm/_error_control_decoders/ViterbiDecoder.py
index 3762147..9ea5331 100644
--- a/src/komm/_error_control_decoders/ViterbiDecoder.py
+++ b/src/komm/_error_control_decoders/ViterbiDecoder.py
@@ -73,10 +73,11 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         """
         k = self.code.convolutional_code.num_input_bits
         n = self.code.convolutional_code.num_output_bits
+        pbar = get_pbar(np.size(input) // self.code.length, "Viterbi")
 
         @blockwise(self.code.length)
         @vectorize
-        @with_pbar(get_pbar(np.size(input) // self.code.length, "Viterbi"))
+        @with_pbar(pbar)
         def decode(r: npt.NDArray[np.integer]):
             xs_hat, final_metrics = self._fsm.viterbi(
                 observed=r.reshape(-1, n),
@@ -87,4 +88,5 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
             u_hat = int_to_bits(x_hat, width=k).ravel()
             return u_hat
 
-        return decode(input)
+        with pbar:
+            return decode(input)
diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 6e998a2..c4310d0 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -120,6 +120,7 @@ class LempelZiv77Code:
             tokens.append((p, l, buffer[i + l]))
             i += l + 1
             pbar.update(l + 1)
+        pbar.close()
 
         return tokens
 
-- 
2.43.0


From d3cde196ab10f064d1a1c99dd005addba5c02080 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 16/32] fix: codes given boolean matrices encode and check
 boolean words modulo 2

The matrix kept its boolean type, so the products with boolean words were
computed with OR instead of addition.
---
 src/komm/_error_control_block/BlockCode.py           | 4 ++--
 src/komm/_error_control_block/SystematicBlockCode.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_error_control_block/BlockCode.py b/src/komm/_error_control_block/BlockCode.py
index 4edea20..e0e6606 100644
--- a/src/komm/_error_control_block/BlockCode.py
+++ b/src/komm/_error_control_block/BlockCode.py
@@ -64,13 +64,13 @@ class BlockCode(abc.BlockCode):
                 "only one of 'generator_matrix' or 'check_matrix' must be provided"
             )
         if generator_matrix is not None:
-            self._generator_matrix = np.asarray(generator_matrix)
+            self._generator_matrix = np.asarray(generator_matrix, dtype=int)
             self._check_matrix = None
             self._dimension, self._length = self._generator_matrix.shape
             self._redundancy = self._length - self._dimension
         else:  # check_matrix is not None
             self._generator_matrix = None
-            self._check_matrix = np.asarray(check_matrix)
+            self._check_matrix = np.asarray(check_matrix, dtype=int)
             self._redundancy, self._length = self._check_matrix.shape
             self._dimension = self._length - self._redundancy
 
diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index bb4a169..715f530 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -52,7 +52,7 @@ class SystematicBlockCode(abc.BlockCode):
         parity_submatrix: npt.ArrayLike,
         information_set: Literal["left", "right"] | npt.ArrayLike = "left",
     ):
-        self.parity_submatrix = np.asarray(parity_submatrix)
+        self.parity_submatrix = np.asarray(parity_submatrix, dtype=int)
         n, k, m = self.length, self.dimension, self.redundancy
         if isinstance(information_set, str):
             if information_set == "left":
-- 
2.43.0


From d997dfffcacdc36309cfe7a19bf012e75ff7c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 17/32] fix: soft decoders accept quantised log-likelihood
 ratios in any integer type

---
 src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py | 2 +-
 src/komm/_error_control_decoders/ReedDecoder.py             | 2 +-
 src/komm/_error_control_decoders/SCDecoder.py               | 2 +-
 src/komm/_error_control_decoders/WagnerDecoder.py           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
index 9c8f2a9..b34e2ec 100644
--- a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
+++ b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
@@ -48,7 +48,7 @@ class ExhaustiveSearchDecoder(abc.BlockDecoder[abc.BlockCode]):
             if self.input_type == "hard":
                 ds = r[..., np.newaxis, :] != self._codewords
             else:
-                ds = -r[..., np.newaxis, :] * (-1) ** self._codewords
+                ds = -r[..., np.newaxis, :].astype(float) * (-1) ** self._codewords
             metrics = np.sum(ds, axis=-1)
             v_hat = self._codewords[np.argmin(metrics, axis=-1)]
             u_hat = self.code.project_word(v_hat)
diff --git a/src/komm/_error_control_decoders/ReedDecoder.py b/src/komm/_error_control_decoders/ReedDecoder.py
index b76ef6a..ccb945e 100644
--- a/src/komm/_error_control_decoders/ReedDecoder.py
+++ b/src/komm/_error_control_decoders/ReedDecoder.py
@@ -62,7 +62,7 @@ class ReedDecoder(abc.BlockDecoder[ReedMullerCode]):
             bx = (r < 0).astype(int)
             for i, partition in enumerate(self._reed_partitions):
                 checksums = np.count_nonzero(bx[partition], axis=1) % 2
-                min_reliability = np.min(np.abs(r[partition]), axis=1)
+                min_reliability = np.min(np.abs(r[partition].astype(float)), axis=1)
                 decision_var = (1 - 2 * checksums) @ min_reliability
                 u_hat[i] = decision_var < 0
                 bx ^= u_hat[i] * self.code.generator_matrix[i]
diff --git a/src/komm/_error_control_decoders/SCDecoder.py b/src/komm/_error_control_decoders/SCDecoder.py
index 774bca0..c428ed2 100644
--- a/src/komm/_error_control_decoders/SCDecoder.py
+++ b/src/komm/_error_control_decoders/SCDecoder.py
@@ -58,7 +58,7 @@ class SCDecoder(abc.BlockDecoder[PolarCode]):
             # See [Successive Cancellation(SC) Decoder for a General (N,K) Polar Code]
             # by Prof. Andrew Thangaraj (NPTEL-NOC IITM)
             active = (0, 0)
-            beliefs: dict[Node, Belief] = {(0, 0): li}
+            beliefs: dict[Node, Belief] = {(0, 0): li.astype(float)}
             decisions: dict[Node, Decision] = {}
             while active[0] >= 0:
                 depth, index = active
diff --git a/src/komm/_error_control_decoders/WagnerDecoder.py b/src/komm/_error_control_decoders/WagnerDecoder.py
index 9b4a4d2..3c54382 100644
--- a/src/komm/_error_control_decoders/WagnerDecoder.py
+++ b/src/komm/_error_control_decoders/WagnerDecoder.py
@@ -38,7 +38,7 @@ class WagnerDecoder(abc.BlockDecoder[SingleParityCheckCode]):
         def decode(r: npt.NDArray[np.integer]):
             v_hat = (r < 0).astype(int)
             if np.count_nonzero(v_hat) % 2 != 0:
-                i = np.argmin(np.abs(r))
+                i = np.argmin(np.abs(r.astype(float)))
                 v_hat[i] ^= 1
             u_hat = self.code.project_word(v_hat)
             return u_hat
-- 
2.43.0


From 2933efe4bf3dd769b9e1e483606a7dba85ecdcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 18/32] fix: biorthogonal hard decisions accept any integer
 type

---
 src/komm/_constellations/BiorthogonalConstellation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_constellations/BiorthogonalConstellation.py b/src/komm/_constellations/BiorthogonalConstellation.py
index d03bd2f..2c05205 100644
--- a/src/komm/_constellations/BiorthogonalConstellation.py
+++ b/src/komm/_constellations/BiorthogonalConstellation.py
@@ -166,7 +166,7 @@ class BiorthogonalConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         N = M // 2
-        received = np.asarray(received)
+        received = np.asarray(received, dtype=float)
         r = received.reshape(-1, N)
         scores = np.concatenate([r, -r], axis=-1)
         indices = np.argmax(scores, axis=-1)
-- 
2.43.0


From 14ab735a6cb531bc7bf63f368c8d55233861a811 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 19/32] fix: boxplus keeps the sign and precision of weak
 results

Successive cancellation decided bits of undamaged words by rounding noise
when the exact L-value was below the cancellation error of the two log1p
terms.
---
 src/komm/_util/special_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 45f0401..98ffbe0 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -163,4 +163,8 @@ def boxplus(a: npt.ArrayLike, b: npt.ArrayLike) -> npt.NDArray[np.floating] | fl
     p1 = np.exp(-np.abs(a + b))
     p2 = np.exp(-np.abs(a - b))
     result = s + np.log1p(p1) - np.log1p(p2)
+    # For a weak input the terms above cancel almost completely, losing even the sign of the result.
+    l, h = np.minimum(np.abs(a), np.abs(b)), np.maximum(np.abs(a), np.abs(b))
+    w = np.log1p(np.expm1(np.minimum(l, 1)) * -np.expm1(-h) / (1 + np.exp(-(h - l))))
+    result = np.where(l < 1, np.sign(a) * np.sign(b) * w, result) + 0.0
     return float(result) if np.ndim(result) == 0 else result
-- 
2.43.0


From 585fe8aa63dd3402b7349b178be3ca9cce588c6a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:52:53 +0000
Subject: [PATCH 20/32] fix: FibonacciCode.encode leaves the caller's array
 alone

encode() of a column-shaped array counted the caller's own elements down to zero
through row views.
---
 src/komm/_integer_coding/FibonacciCode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_integer_coding/FibonacciCode.py b/src/komm/_integer_coding/FibonacciCode.py
index 4644f29..3ee0bee 100644
--- a/src/komm/_integer_coding/FibonacciCode.py
+++ b/src/komm/_integer_coding/FibonacciCode.py
@@ -60,7 +60,7 @@ def fibonacci_encode(integer: int) -> list[int]:
         i = 0
         while fibonacci(i + 1) <= integer:
             i += 1
-        integer -= fibonacci(i)
+        integer = integer - fibonacci(i)
         positions.append(i - 2)
     last = max(positions) + 1
     return [1 if i in positions else 0 for i in range(last)] + [1]
-- 
2.43.0


From 0e9f88d0602029c75a97e3d9f2c39eb871ab8381 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 21/32] fix: absorption answers of Markov chains list the
 states in increasing order

---
 src/komm/_sources/MarkovChain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index 9774aac..b08bf4b 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -479,7 +479,7 @@ class MarkovChain:
         """
         if not self.is_absorbing():
             raise ValueError("chain is not absorbing")
-        transient = list(self.transient_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         Q = P[np.ix_(transient, transient)]
         I = np.eye(len(transient))
@@ -535,8 +535,8 @@ class MarkovChain:
                    [0.33333333, 0.66666667]])
         """
         N = self.mean_number_of_visits()
-        absorbing = list(self.absorbing_states())
-        transient = list(self.transient_states())
+        absorbing = sorted(self.absorbing_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         R = P[np.ix_(transient, absorbing)]
         B = N @ R
-- 
2.43.0


From 55eb6cca608af96982f84712bc6db84d32d66372 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:03:39 +0000
Subject: [PATCH 22/32] fix: waveform of the square-root Beaulieu pulse far
 from the origin

---
 src/komm/_pulses/BeaulieuPulse.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/komm/_pulses/BeaulieuPulse.py b/src/komm/_pulses/BeaulieuPulse.py
index beb30e5..41df547 100644
--- a/src/komm/_pulses/BeaulieuPulse.py
+++ b/src/komm/_pulses/BeaulieuPulse.py
@@ -254,7 +254,15 @@ class _RootBeaulieuPulse(RootPulse[BeaulieuPulse]):
         band2 = 2 * num / (b**2 + (2 * np.pi * t) ** 2)
         # Band [1/2, f2], where the square-root spectrum equals
         # sqrt(1 - e^{-2b (f2 - f)}):
+        # The farther t is from the origin, the faster the integrand oscillates, so
+        # the interval is split into panels accordingly.
+        t_max = np.max(np.abs(t[np.isfinite(t)]), initial=0.0)
+        panels = 1 + int(α * t_max / 50)
         v, w = self._quadrature
-        g = 4 * w * v * np.sqrt(1 - np.exp(-2 * b * v**2))
-        band3 = np.cos(2 * np.pi * t[..., np.newaxis] * (f2 - v**2)) @ g
+        v, w = v / panels, w / panels
+        band3 = 0.0
+        for i in range(panels):
+            u = v + i * np.sqrt(α / 2) / panels
+            g = 4 * w * u * np.sqrt(1 - np.exp(-2 * b * u**2))
+            band3 += np.cos(2 * np.pi * t[..., np.newaxis] * (f2 - u**2)) @ g
         return band1 + band2 + band3
-- 
2.43.0


From 8e0496a45c3160dcc872db370a1481222d864887 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:08:21 +0000
Subject: [PATCH 23/32] fix: autocorrelation of narrow or boolean sequences, or
 at unsigned shifts

---
 src/komm/_util/sequences.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/sequences.py b/src/komm/_util/sequences.py
index ade6037..c0ba58f 100644
--- a/src/komm/_util/sequences.py
+++ b/src/komm/_util/sequences.py
@@ -35,10 +35,12 @@ def autocorrelation(
         array([11., 20., 30., 20., 11.])
     """
     sequence = np.asarray(sequence)
+    if sequence.dtype.kind in "bui":  # narrow integers would overflow
+        sequence = sequence.astype(int)
     seq_conj = np.conj(sequence)
     shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
     acorr = np.empty_like(shifts, dtype=sequence.dtype)
-    for i, ℓ in enumerate(shifts):
+    for i, ℓ in enumerate(shifts.tolist()):
         if ℓ < 0:
             acorr[i] = np.dot(sequence[:ℓ], seq_conj[-ℓ:])
         elif ℓ > 0:
@@ -76,7 +78,11 @@ def cyclic_autocorrelation(
         array([22., 24., 30., 24., 22.])
     """
     sequence = np.asarray(sequence)
+    if sequence.dtype.kind in "bui":  # narrow integers would overflow
+        sequence = sequence.astype(int)
     shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
-    acorr = np.array([np.dot(sequence, np.roll(sequence, ℓ).conj()) for ℓ in shifts])
+    acorr = np.array([
+        np.dot(sequence, np.roll(sequence, ℓ).conj()) for ℓ in shifts.tolist()
+    ])
     energy = np.dot(sequence, sequence.conj())
     return acorr / energy if normalized else acorr
-- 
2.43.0


From fcb4aeec71221edd6dd742c2343cbe8c94f7747b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:26:14 +0000
Subject: [PATCH 24/32] fix: free distance of catastrophic encoders and of
 encoders with silent states

---
 src/komm/_error_control_convolutional/base.py | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/komm/_error_control_convolutional/base.py b/src/komm/_error_control_convolutional/base.py
index 9ecfff9..4b76de4 100644
--- a/src/komm/_error_control_convolutional/base.py
+++ b/src/komm/_error_control_convolutional/base.py
@@ -183,11 +183,25 @@ class ConvolutionalCode(ABC):
         Returns the *free distance* $d_\mathrm{free}$ of the code. This is equal to the minimum Hamming weight among all possible non-zero output sequences.
         """
         fsm = self.finite_state_machine()
+        # States from which the output may stay zero forever: a minimum-weight output
+        # sequence ends in one of these, not necessarily in the zero state.
+        silent = set(range(fsm.num_states))
+        previous = None
+        while silent != previous:
+            previous = silent
+            silent = {
+                s
+                for s in previous
+                if any(
+                    y == 0 and s1 in previous
+                    for s1, y in zip(fsm.transitions[s], fsm.outputs[s])
+                )
+            }
         heap = [(0, 0)]  # (weight, state)
         best = [np.inf] * fsm.num_states
         while heap:
             w, s = heappop(heap)
-            if s == 0 and w > 0:
+            if s in silent and w > 0:
                 return int(w)
             for x in range(fsm.num_input_symbols):
                 s1 = fsm.transitions[s][x]
@@ -195,8 +209,8 @@ class ConvolutionalCode(ABC):
                 if w1 < best[s1]:
                     best[s1] = w1
                     heappush(heap, (w1, s1))
-                elif s1 == 0 and w1 > 0:
-                    heappush(heap, (w1, 0))
+                elif s1 in silent and w1 > 0:
+                    heappush(heap, (w1, s1))
         raise RuntimeError
 
     @abstractmethod
-- 
2.43.0


From 1cd42973b72488f44ee95c8002a6248296ab329b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:26:14 +0000
Subject: [PATCH 25/32] fix: invariant factors of polynomial matrices where
 clearing a column spoils the row

---
 src/komm/_util/matrices.py | 57 +++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/src/komm/_util/matrices.py b/src/komm/_util/matrices.py
index 3543e94..510486c 100644
--- a/src/komm/_util/matrices.py
+++ b/src/komm/_util/matrices.py
@@ -222,48 +222,41 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
     matrix[0, :], matrix[i0, :] = matrix[i0, :].copy(), matrix[0, :].copy()
     matrix[:, 0], matrix[:, j0] = matrix[:, j0].copy(), matrix[:, 0].copy()
 
-    # E2a
+    # Clearing the first column may spoil the first row again, and the pivot must
+    # divide all the remaining entries.
     done = False
     while not done:
         done = True
-        for j in range(1, n):
-            a = BP(matrix[0, j])
-            if a == 0:
-                continue
-            q, r = divmod(a, a0)
-            if r != 0:
-                a0 = r
+        # E2a, E3a: Clear the first row
+        cleared = False
+        while not cleared:
+            cleared = True
+            for j in range(1, n):
+                q, r = divmod(BP(matrix[0, j]), a0)
                 for i in range(k):
                     matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[i, 0])
-                matrix[:, 0], matrix[:, j] = matrix[:, j].copy(), matrix[:, 0].copy()
-                done = False
-                break
-    # E2b
-    done = False
-    while not done:
-        done = True
+                if r != 0:
+                    a0 = r
+                    matrix[:, 0], matrix[:, j] = matrix[:, j].copy(), matrix[:, 0].copy()
+                    cleared = False
+                    break
+        # E2b, E3b: Clear the first column
         for i in range(1, k):
-            a = BP(matrix[i, 0])
-            if a == 0:
-                continue
-            q, r = divmod(a, a0)
+            q, r = divmod(BP(matrix[i, 0]), a0)
+            for j in range(n):
+                matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
             if r != 0:
                 a0 = r
-                for j in range(n):
-                    matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
                 matrix[0, :], matrix[i, :] = matrix[i, :].copy(), matrix[0, :].copy()
                 done = False
                 break
-
-    # E3a
-    for j in range(1, n):
-        q = BP(matrix[0, j]) // a0
-        for i in range(k):
-            matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[i, 0])
-    # E3b
-    for i in range(1, k):
-        q = BP(matrix[i, 0]) // a0
-        for j in range(n):
-            matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
+        if not done:
+            continue
+        # E4: Bring an entry not divisible by the pivot to the first row
+        for i, j in product(range(1, k), range(1, n)):
+            if BP(matrix[i, j]) % a0 != 0:
+                matrix[0, :] ^= matrix[i, :]
+                done = False
+                break
 
     return [a0] + invariant_factors(matrix[1:, 1:])
-- 
2.43.0


From 07fdfb9ee0b249e8634b85a6ccbf4dedc06b1839 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:26:30 +0000
Subject: [PATCH 26/32] fix: state-space representation of memoryless high-rate
 convolutional codes

---
 .../HighRateConvolutionalCode.py                             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
index 3801b13..e3a2a24 100644
--- a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
@@ -205,12 +205,13 @@ class HighRateConvolutionalCode(abc.ConvolutionalCode):
         beta = np.fliplr(beta)
         alpha = np.array([self.h_row[-1].coefficients(σ + 1)])
         alpha = np.fliplr(alpha)
-        A_mat = np.vstack([np.eye(σ - 1, σ, k=1, dtype=int), alpha[:, :-1]])
+        A_mat = np.eye(σ, σ, k=1, dtype=int)
+        A_mat[-1:] = alpha[:, :-1]
         B_mat = np.empty((n - 1, σ), dtype=int)
         for j in range(σ):
             B_mat[:, j] = beta[:, j] ^ (alpha[0, j] * beta[:, -1])
         C_mat = np.zeros((σ, n), dtype=int)
-        C_mat[-1, -1] = 1
+        C_mat[-1:, -1] = 1
         D_mat = np.hstack([np.eye(n - 1, dtype=int), beta[:, -1:]])
         return A_mat, B_mat, C_mat, D_mat
 
-- 
2.43.0


From 5c4241ebabf08ac2ca160ae626ef25975a9eb3fc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:26:48 +0000
Subject: [PATCH 27/32] fix: Tunstall codes missing one expansion when the
 dictionary fits the block size exactly

---
 src/komm/_lossless_coding/TunstallCode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/TunstallCode.py b/src/komm/_lossless_coding/TunstallCode.py
index 82136a1..91bd100 100644
--- a/src/komm/_lossless_coding/TunstallCode.py
+++ b/src/komm/_lossless_coding/TunstallCode.py
@@ -104,7 +104,7 @@ def tunstall_code(
             return -self.probability < -other.probability
 
     S, n = pmf.size, target_block_size
-    K = ceil((2**n - S) / (S - 1)) - 1  # See [Say06, p. 70]
+    K = (2**n - S) // (S - 1)  # See [Say06, p. 70]
     size = S + K * (S - 1)
 
     pbar = tqdm(desc="Generating Tunstall code", total=K * S + size, delay=2.5)
-- 
2.43.0


From aac571744a3936d900ec0daf2cd3bbcf8a16d524 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:31:18 +0000
Subject: [PATCH 28/32] fix: codeword lengths and rate of fixed-to-variable
 codes given in any order of source words

---
 src/komm/_lossless_coding/FixedToVariableCode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/FixedToVariableCode.py b/src/komm/_lossless_coding/FixedToVariableCode.py
index 8975e4f..566aa64 100644
--- a/src/komm/_lossless_coding/FixedToVariableCode.py
+++ b/src/komm/_lossless_coding/FixedToVariableCode.py
@@ -319,7 +319,8 @@ class FixedToVariableCode:
             >>> code.codewords
             [(0,), (1, 0), (1, 1)]
         """
-        return list(self.enc_mapping.values())
+        calX, k = self.source_cardinality, self.source_block_size
+        return [self.enc_mapping[x] for x in product(range(calX), repeat=k)]
 
     @cached_property
     def lengths(self) -> list[int]:
-- 
2.43.0


From 0bcd38c542b4346b6681179d950081984c1b5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 07:37:39 +0000
Subject: [PATCH 29/32] fix: minimum distance of QAM constellations with a
 single level on one axis

---
 src/komm/_constellations/QAMConstellation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_constellations/QAMConstellation.py b/src/komm/_constellations/QAMConstellation.py
index 53e686f..817edc6 100644
--- a/src/komm/_constellations/QAMConstellation.py
+++ b/src/komm/_constellations/QAMConstellation.py
@@ -175,7 +175,9 @@ class QAMConstellation(abc.Constellation[np.complexfloating]):
             >>> const.minimum_distance()
             2.0
         """
-        return min(self._deltas)
+        # An axis with a single level contributes no pair of distinct symbols.
+        Ms, δs = self._orders, self._deltas
+        return min((δ for M, δ in zip(Ms, δs) if M > 1), default=min(δs))
 
     def indices_to_symbols(
         self, indices: npt.ArrayLike
-- 
2.43.0


From dbbc8a9b254a762784c273ec268943919286d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 07:37:39 +0000
Subject: [PATCH 30/32] fix: mean of PSK constellations and APSK rings with a
 single point

---
 src/komm/_constellations/APSKConstellation.py | 2 +-
 src/komm/_constellations/PSKConstellation.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_constellations/APSKConstellation.py b/src/komm/_constellations/APSKConstellation.py
index c584d17..aa86c6f 100644
--- a/src/komm/_constellations/APSKConstellation.py
+++ b/src/komm/_constellations/APSKConstellation.py
@@ -131,7 +131,7 @@ class APSKConstellation(abc.Constellation[np.complexfloating]):
             >>> const.mean()
             array([0.+0.j])
         """
-        if priors is None:
+        if priors is None and 1 not in self._orders:
             return np.zeros((1,), dtype=complex)
         return super().mean(priors)
 
diff --git a/src/komm/_constellations/PSKConstellation.py b/src/komm/_constellations/PSKConstellation.py
index f62b50b..bb0a884 100644
--- a/src/komm/_constellations/PSKConstellation.py
+++ b/src/komm/_constellations/PSKConstellation.py
@@ -106,7 +106,7 @@ class PSKConstellation(abc.Constellation[np.complexfloating]):
             >>> const.mean()
             array([0.+0.j])
         """
-        if priors is None:
+        if priors is None and self._order > 1:
             return np.zeros((1,), dtype=complex)
         return super().mean(priors)
 
-- 
2.43.0


From 76ae5d59d12a5a20fb922ea9ea969c56438ba386 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 07:37:39 +0000
Subject: [PATCH 31/32] fix: mean squared error of quantizers with thresholds
 outside the input range

---
 src/komm/_quantization/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_quantization/base.py b/src/komm/_quantization/base.py
index 52f18c9..0043604 100644
--- a/src/komm/_quantization/base.py
+++ b/src/komm/_quantization/base.py
@@ -75,7 +75,9 @@ class ScalarQuantizer(ABC):
         """
         # See [Say06, eq. (9.3)].
         x_min, x_max = input_range
-        λ = np.concatenate(([x_min], self.thresholds, [x_max]))
+        # Cells are restricted to the input range, where the pdf is defined.
+        thresholds = np.clip(self.thresholds, x_min, x_max)
+        λ = np.concatenate(([x_min], thresholds, [x_max]))
         mse = 0.0
         for i, level in enumerate(self.levels):
             x = np.linspace(λ[i], λ[i + 1], num=points_per_interval, dtype=float)
-- 
2.43.0


From 86ca458b1407f104bb5f8a3a3a0785be97efd738 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 07:37:39 +0000
Subject: [PATCH 32/32] fix: Lloyd-Max iteration stopped early for inputs far
 from the origin or of tiny range

---
 src/komm/_quantization/LloydMaxQuantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_quantization/LloydMaxQuantizer.py b/src/komm/_quantization/LloydMaxQuantizer.py
index 064c839..6fc47d0 100644
--- a/src/komm/_quantization/LloydMaxQuantizer.py
+++ b/src/komm/_quantization/LloydMaxQuantizer.py
@@ -162,7 +162,7 @@ def lloyd_max_quantizer(
             denominator = np.trapezoid(pdf, x)
             if denominator != 0:
                 y[i] = np.trapezoid(x * pdf, x) / denominator
-        if np.allclose(y, y_old):
+        if np.allclose(y, y_old, rtol=0.0, atol=1e-6 * delta):
             break
 
     return y, λ[1:-1]
-- 
2.43.0

