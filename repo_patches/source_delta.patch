From 60f9d79e70e5eaefd12acbc95c2536270ad6be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 01/12] fix: report exceptions of worker threads to the caller
 of run_multithreads

---
 scrappybara/utils/multithreading.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/multithreading.py b/scrappybara/utils/multithreading.py
index 648d954..67ac3bf 100644
--- a/scrappybara/utils/multithreading.py
+++ b/scrappybara/utils/multithreading.py
@@ -11,9 +11,13 @@ class _Thread(threading.Thread):
         self.__input_items = input_items
         self.__process = process
         self.output_items = []
+        self.error = None  # Exception raised while processing the items
 
     def run(self):
-        self.output_items = [self.__process(item) for item in self.__input_items]
+        try:
+            self.output_items = [self.__process(item) for item in self.__input_items]
+        except BaseException as error:
+            self.error = error
 
 
 def run_multithreads(items, process, nb_threads):
@@ -26,4 +30,7 @@ def run_multithreads(items, process, nb_threads):
     for idx, _ in enumerate(items_lists):
         nb_threads[idx].join()
         output_items.extend(nb_threads[idx].output_items)
+    for thread in nb_threads:
+        if thread.error is not None:
+            raise thread.error
     return output_items
-- 
2.43.0


From 8fb53a3d967ff967a2d618fa16017f50ce7206da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 02/12] fix: restore protected patterns that contain other
 protected patterns

---
 scrappybara/preprocessing/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index bd6fb52..d21103d 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -194,7 +194,8 @@ class Tokenizer(object):
         for replace in self.__re_reattach:
             text = re.sub(replace[0], replace[1], text)
         # Re-establish protected patterns
-        for key, value in protected.items():
+        # (latest first, since a protected pattern can contain the key of an earlier one)
+        for key, value in reversed(list(protected.items())):
             text = text.replace(key, value)
         return text.split()
 
-- 
2.43.0


From d456b059e91d6087433fde0b93ee4710fbccf603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 03/12] fix: don't leak the sentence-end mark inside quotes and
 brackets

---
 scrappybara/preprocessing/sentencizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index f27a723..83c4870 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -65,7 +65,7 @@ class Sentencizer(object):
     def __find_blocks(self, text, ctr, pattern, block_starter, block_ender):
         shift = 0
         for quote, sidx, eidx in [(m.group(), m.start(), m.end()) for m in re.finditer(pattern, text)]:
-            ctr.append(quote[1:-1])
+            ctr.append(quote[1:-1].replace('¶', ' '))
             number = str(len(ctr) - 1)
             text = text[:sidx - shift] + ' ' + block_starter + number + block_ender + ' ' + text[eidx - shift:]
             shift += len(quote) - 4 - len(number)
-- 
2.43.0


From ec2ca0bb7d87f0b18b1996b4a51c286c41a94bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 04/12] fix: don't crash on texts that contain the block
 markers

---
 scrappybara/preprocessing/sentencizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index 83c4870..a4c6ad9 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -17,6 +17,7 @@ class Sentencizer(object):
     __re_bracket_block_end = '⦆'
     __re_sent_enders = re.compile(r'([.?!:]+|¶)')
     __re_sanitization = [
+        (re.compile(r'[༺༻⦅⦆]'), ' '),  # Reserved for the block markers
         (re.compile(r'\."'), '."¶'),  # The end dot of a sentence can be in quote
     ]
 
-- 
2.43.0


From 4416613fb69636bb2049d08ceb96e4354a6699e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 05/12] fix: keep all tokens before when there are fewer than
 the window needs

---
 scrappybara/langmodel/token_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/token_context.py b/scrappybara/langmodel/token_context.py
index 4b1b1ac..c4ac122 100644
--- a/scrappybara/langmodel/token_context.py
+++ b/scrappybara/langmodel/token_context.py
@@ -22,7 +22,7 @@ class TokenContext(object):
         """Given an order n, returns all combinations of ngram: before/token/after"""
         assert order > 1
         exploring_range = order - 1
-        tokens_before = self.__tokens_before[len(self.__tokens_before) - exploring_range:]
+        tokens_before = self.__tokens_before[max(0, len(self.__tokens_before) - exploring_range):]
         tokens_after = self.__tokens_after[:exploring_range]
         tokens = tokens_before + [self.token] + tokens_after
         return [' '.join(items) for items in self.__slide_window(tokens, order)]
-- 
2.43.0


From d7d3ee875276db65bcc6b1579a0bf0a6b87096c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 06/12] fix: Tagger returns exactly one tag per token

---
 scrappybara/syntax/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/syntax/tagger.py b/scrappybara/syntax/tagger.py
index 1ba77ea..6fbed11 100644
--- a/scrappybara/syntax/tagger.py
+++ b/scrappybara/syntax/tagger.py
@@ -21,4 +21,4 @@ class Tagger(object):
         data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
         seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)
         tag_codes = self.__ptags_model.predict(char_codes, word_vectors)
-        return [[Tag(code) for code in tag_codes[idx][1:sl + 1]] for idx, sl in enumerate(seq_lengths)]
+        return [[Tag(code) for code in tag_codes[idx][1:sl - 1]] for idx, sl in enumerate(seq_lengths)]
-- 
2.43.0


From 6a7fb5f363715f843afe73b68dc4b2285cc28b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 07/12] fix: a token that already has a parent can't get a
 second one via a left arc

---
 scrappybara/syntax/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scrappybara/syntax/parser.py b/scrappybara/syntax/parser.py
index d8e72b2..6e1e025 100644
--- a/scrappybara/syntax/parser.py
+++ b/scrappybara/syntax/parser.py
@@ -39,6 +39,9 @@ class _Parse(object):
             return Dep.SPLIT  # ROOT cannot have any parent
         return pdep
 
+    def __has_parent(self, idx):
+        return any([child_idx == idx for _, _, child_idx in self.arcs])
+
     def __shift(self):
         self.__stack.append(self.__buffer.popleft())
 
@@ -71,7 +74,8 @@ class _Parse(object):
 
     def register_transition(self, trans):
         if trans == Trans.LEFT:
-            self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
+            if not self.__has_parent(self.__stack[-1]):
+                self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
             self.__reduce()
         elif trans == Trans.RIGHT:
             self.arcs.append((self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0]))
-- 
2.43.0


From 63cda1507321623191db7ee653974ba36c83c455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 08/12] fix: a negated copula negates the active form too

---
 scrappybara/semantics/semantic_tuple_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/semantics/semantic_tuple_extractor.py b/scrappybara/semantics/semantic_tuple_extractor.py
index 625f559..7bdd47a 100644
--- a/scrappybara/semantics/semantic_tuple_extractor.py
+++ b/scrappybara/semantics/semantic_tuple_extractor.py
@@ -187,7 +187,7 @@ class SemanticTupleExtractor(object):
             # Active forms
             if prop.tag == Tag.ADJ and prop.active_verb:
                 for agent in [a for a in prop.agents if a.tag in NOUN_TAGS]:
-                    is_aff = xnor(agent.is_aff, prop.is_aff, noun.is_aff)
+                    is_aff = xnor(agent.is_aff, copula.is_aff, prop.is_aff, noun.is_aff)
                     verb_arg = Argument(prop.active_verb, ArgCode.TRANS.value, is_aff)
                     agent_arg = Argument(agent.canon, _noun_arg_code(agent))
                     stuples.append(SemanticTuple(agent_arg, verb_arg, noun_arg))
-- 
2.43.0


From 5e2fc82b7c6baadabed9c2c2fcee7b0e0b1fc849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 09/12] fix: count the negation of a node once when it plays
 several roles in a tuple

---
 .../semantics/semantic_tuple_extractor.py      | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scrappybara/semantics/semantic_tuple_extractor.py b/scrappybara/semantics/semantic_tuple_extractor.py
index 7bdd47a..65b65b7 100644
--- a/scrappybara/semantics/semantic_tuple_extractor.py
+++ b/scrappybara/semantics/semantic_tuple_extractor.py
@@ -33,6 +33,11 @@ def _prop_arg_code(prop):
     return _noun_arg_code(prop)
 
 
+def _polarity(*nodes):
+    """A negated node counts once, even if it plays several roles (implied subject, reflexive pronoun)"""
+    return sum([not node.is_aff for node in set(nodes)]) % 2 == 0
+
+
 class SemanticTupleExtractor(object):
     __not_passive = {'have', 'get'}
     __not_intransitive = {'have', 'get', 'be', 'do'}
@@ -80,18 +85,18 @@ class SemanticTupleExtractor(object):
                     subj_2_arg = Argument(subj_2.canon, _noun_arg_code(subj_2))
                     if not obj_1.cannot_be_transitive:
                         if not obj_1.objs and obj_1.canon not in self.__not_intransitive:
-                            is_aff = xnor(subj_1.is_aff, verb.is_aff, subj_2.is_aff, obj_1.is_aff)
+                            is_aff = _polarity(subj_1, verb, subj_2, obj_1)
                             verb_arg = Argument(verb.canon, ArgCode.TRANS.value, is_aff)
                             obj_1_arg = Argument(obj_1.canon, ArgCode.INTR.value)
                             stuples.append(SemanticTuple(subj_1_arg, verb_arg, subj_2_arg, obj_1_arg))
                         for obj_2 in [o for o in obj_1.objs if o.tag in NOUN_TAGS]:
-                            is_aff = xnor(subj_1.is_aff, verb.is_aff, subj_2.is_aff, obj_1.is_aff, obj_2.is_aff)
+                            is_aff = _polarity(subj_1, verb, subj_2, obj_1, obj_2)
                             verb_arg = Argument(verb.canon, ArgCode.TRANS.value, is_aff)
                             obj_1_arg = Argument(obj_1.canon, ArgCode.TRANS.value)
                             obj_2_arg = Argument(obj_2.canon, _noun_arg_code(obj_2))
                             stuples.append(SemanticTuple(subj_1_arg, verb_arg, subj_2_arg, obj_1_arg, obj_2_arg))
                     for prop in obj_1.props:
-                        is_aff = xnor(subj_1.is_aff, verb.is_aff, subj_2.is_aff, obj_1.is_aff, prop.is_aff)
+                        is_aff = _polarity(subj_1, verb, subj_2, obj_1, prop)
                         verb_arg = Argument(verb.canon, ArgCode.TRANS.value, is_aff)
                         obj_1_arg = Argument(obj_1.canon, ArgCode.COP.value)
                         prop_arg = Argument(prop.canon, _prop_arg_code(prop))
@@ -112,7 +117,7 @@ class SemanticTupleExtractor(object):
             # Transitive forms
             for subj in [s for s in verb.subjs if s.tag in NOUN_TAGS]:
                 subj_arg = Argument(subj.canon, _noun_arg_code(subj))
-                verb_arg = Argument(verb.canon, ArgCode.TRANS.value, xnor(subj.is_aff, verb.is_aff, obj.is_aff))
+                verb_arg = Argument(verb.canon, ArgCode.TRANS.value, _polarity(subj, verb, obj))
                 stuples.append(SemanticTuple(subj_arg, verb_arg, obj_arg))
         return stuples
 
@@ -122,10 +127,11 @@ class SemanticTupleExtractor(object):
         if verb.canon not in self.__not_passive:
             for obj in [o for o in verb.objs if o.tag in NOUN_TAGS]:
                 obj_arg = Argument(obj.canon, _noun_arg_code(obj))
-                if not verb.subjs:
+                subjs = [subj for subj in verb.subjs if subj is not obj]
+                if not subjs:
                     is_aff = xnor(verb.is_aff, obj.is_aff)
                 else:
-                    is_aff = xnor(any([subj.is_aff for subj in verb.subjs]), verb.is_aff, obj.is_aff)
+                    is_aff = xnor(any([subj.is_aff for subj in subjs]), verb.is_aff, obj.is_aff)
                 copula_arg = Argument('be', ArgCode.COP.value, is_aff)
                 pp = self.__inflector.past_participle(verb.lemma)
                 if verb.particles:
-- 
2.43.0


From c258090f50a21fe899c2ab19f079d5cce395beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 10/12] fix: maximum likelihood smoothing when there is no
 ngram of some order

---
 scrappybara/langmodel/mle_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/mle_smoother.py b/scrappybara/langmodel/mle_smoother.py
index faa2e36..6a922d2 100644
--- a/scrappybara/langmodel/mle_smoother.py
+++ b/scrappybara/langmodel/mle_smoother.py
@@ -34,7 +34,7 @@ class MLESmoother(Smoother):
     def __call__(self):
         for order in range(1, self._last_order + 1):
             data_slices = []
-            ngrams = self._ngrams[order]
+            ngrams = self._ngrams.get(order, [])
             for process_range in self._process_ranges(len(self._ngrams.get(order, []))):
                 np_counts = np.array([ngrams[i].count for i in process_range])
                 data_slices.append(_DataSlice(np_counts, self.__total_counts[order]))
-- 
2.43.0


From 97a0205a0f418221978959c67dad0304b55dbe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 11/12] fix: close the pkl file after saving

---
 scrappybara/utils/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/files.py b/scrappybara/utils/files.py
index 835c26c..4a21b8f 100644
--- a/scrappybara/utils/files.py
+++ b/scrappybara/utils/files.py
@@ -32,7 +32,8 @@ def load_pkl_file(*args):
 
 
 def save_pkl_file(python_object, *args):
-    pickle.dump(python_object, open(file_path(*args), 'wb'))
+    with open(file_path(*args), 'wb') as pkl_file:
+        pickle.dump(python_object, pkl_file)
 
 
 def load_set_from_txt_file(*args):
-- 
2.43.0


From 01f68640179c4dcd6ebb44b6f68616e1067ce720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 12/12] fix: make iterations over a tree independent of each
 other

---
 scrappybara/utils/tree.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/scrappybara/utils/tree.py b/scrappybara/utils/tree.py
index 33a3e9a..680d8e0 100644
--- a/scrappybara/utils/tree.py
+++ b/scrappybara/utils/tree.py
@@ -12,14 +12,8 @@ class Tree:
         self.__parents = {}  # Node => (label, node)
 
     def __iter__(self):
-        self.__iter = iter(self.__parents.items())
-        return self
-
-    def __next__(self):
         """Arc iterator"""
-        child, rparent = next(self.__iter)
-        label, parent = rparent
-        return label, parent, child
+        return iter([(label, parent, child) for child, (label, parent) in self.__parents.items()])
 
     def __len__(self):
         return 1 + len(self.__parents.keys())
-- 
2.43.0

