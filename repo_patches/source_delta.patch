From 178d6d9209d768062a2d1cb2091d80763104857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 01/26] fix: do not repeat a sentence-final multiword token at
 the start of the next sentence

---
 babylondigger/evaluation/conllu_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index fd99f75..646846e 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -222,6 +222,7 @@ class _RegularTokenWriterState(_AbstractWriterState):
         super().write_end_of_sentence()
         self.__file.write("\n")
         self.__index = 0
+        return self
 
     def write_to_file(self, line):
         self.__file.write(line)
@@ -304,7 +305,7 @@ class CoNLLUWriter(object):
         for sentence in doc.sentences:
             for token in sentence:
                 state = state.write_token(token)
-            state.write_end_of_sentence()
+            state = state.write_end_of_sentence()
 
 
 def to_conll(column_extractors, index: int, token: NavigableToken, write_space_after: bool = True, fake_heads: bool = True) -> List[str]:
-- 
2.43.0


From 26602662f215bc44d9942f82ca967e6926aa61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 02/26] fix: write '_' for FEATS when the writer does not
 export that column

---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 646846e..b6aa666 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -313,7 +313,7 @@ def to_conll(column_extractors, index: int, token: NavigableToken, write_space_a
         return s if s is not None else "_"
 
     def __feats_to_string(feats: Dict) -> str:
-        if len(feats) == 0:
+        if not feats:
             return "_"
         return "|".join(sorted("{}={}".format(*item) for item in feats.items()))
 
-- 
2.43.0


From 14d0639bd2aaada6785c1c5e601996a005039c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 03/26] fix: accept MISC/FEATS entries without '=' and keep '='
 inside values

---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index b6aa666..4807eb4 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -185,7 +185,7 @@ def _parse_pos(upos: Optional[str], xpos: Optional[str], feats: Optional[str]) -
 def _parse_to_dict(feats: Optional[str]) -> Dict[str, str]:
     if feats is None:
         return {}
-    return {entry[0]: entry[1] for entry in map(lambda s: s.split("="), feats.split("|"))}
+    return {entry[0]: entry[1] for entry in map(lambda s: s.partition("=")[::2], feats.split("|"))}
 
 
 ########## writer ##########
-- 
2.43.0


From 8896355caaa5e545cd97b26b22c154f2e9611f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 04/26] fix: TokenExtras.__eq__ must return NotImplemented for
 other types

---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 75a6554..a6bab4a 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -69,7 +69,7 @@ class TokenExtras(object):
     def __eq__(self, other):
         if isinstance(other, TokenExtras):
             return self.__extras == other.__extras
-        raise NotImplemented
+        return NotImplemented
 
     def as_dict(self):
         return deepcopy(self.__extras)
-- 
2.43.0


From acfcf72cb0a549b154070f11e4e5c6463cd327ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 05/26] fix: reject documents whose sentences and tokens cannot
 match (no sentences, or no tokens)

---
 babylondigger/datamodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index a6bab4a..8a7f764 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -436,9 +436,14 @@ class Document(_WordList):
         _WordList.__init__(self, text, tokens, lambda token: token._head_document_index, sorted_sentences=sentences)
 
         if len(tokens) == 0:
-            self.__sentences = []
+            if sentences:
+                raise ValueError('sentences refer to nonexistent tokens (sentences: {})'.format(sentences))
+            self.__sentences = ()
             return
 
+        if not sentences:
+            raise ValueError('there are some tokens outside of the sentence (tokens: {})'.format(self._tokens))
+
         if sentences[-1].end > len(tokens):
             raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: {})'
                              .format(sentences[-1], len(tokens)))
-- 
2.43.0


From 7ddb37b55a98ed194e3323f0bbd23480019dfc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 06/26] fix: str() of a document without tokens

---
 babylondigger/datamodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 8a7f764..78a4378 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -535,6 +535,8 @@ class Document(_WordList):
         return self.__sentences
 
     def __str__(self):
+        if not self._tokens:
+            return self.document_text
         result = self.document_text[0:self._tokens[0].start]
         pointer = self._tokens[0].start
         for sentence in self.__sentences:
-- 
2.43.0


From 16d62f2a1d93c04b94c7485e36655b6aac74fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 07/26] fix: head of a token without syntax is None

---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 78a4378..d8b4b7d 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -406,7 +406,7 @@ class NavigableToken(DocumentToken, _NavigableItem['NavigableToken']):
 
     @property
     def head(self) -> Optional['NavigableToken']:
-        if self.is_root:
+        if self.is_root or not self.has_head:
             return None
         return self.__token_getter(self.head_index)
 
-- 
2.43.0


From 302909080c0a4fe7b98f88e2c7d10084db6937af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 08/26] fix: Pos ordering must not fail when upos or xpos is
 missing

---
 babylondigger/datamodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index d8b4b7d..32defa9 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -41,11 +41,14 @@ class Pos(object):
     def __lt__(self, other):
         if not isinstance(other, Pos):
             return NotImplemented
-        return self.__tuple_view() < other.__tuple_view()
+        return self.__order_view() < other.__order_view()
 
     def __hash__(self):
         return hash(self.__tuple_view())
 
+    def __order_view(self):
+        return tuple((part is not None, part) for part in self.__tuple_view())
+
     def __tuple_view(self):
         return self.__upos, self.__xpos, tuple(sorted(self.__feats.items()))
 
-- 
2.43.0


From fc3dfe361e6029e84749579cd9bfc0b279c475bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 09/26] fix: build the trainable word vocabulary from words,
 normalised like the extractor does

---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 873af00..d59e3bf 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -122,7 +122,7 @@ class TrainableEmbeddingsExtractorBuilder(builder.FeatureExtractorBuilder[Naviga
         self.__lowercase = lowercase
 
     def build(self, dataset: Iterable[Document]):
-        tokens = chain.from_iterable(_tokens(dataset, lambda token: token.text))
+        tokens = _tokens(dataset, lambda token: token.text.lower() if self.__lowercase else token.text)
         counter = Counter(tokens)
         filtered = map(lambda item: item[0], filter(lambda item: item[1] >= self.__threshold, counter.most_common()))
         word2id = {wr: index for index, wr in enumerate(sorted(filtered), 2)}
-- 
2.43.0


From c3929bae529eda1ec25d98a9f13a57810eb4e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 10/26] fix: unknown lemma label must fall back to a valid
 class id

---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index d59e3bf..ca3fd2f 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -414,7 +414,7 @@ class LemmaDictFeatureExtractor(builder.FeatureExtractorInterface[Token, List[in
         self.__lemma2id = lemma2id
 
     def get_features(self, obj: Token, **kwargs) -> Dict[str, List[int]]:
-        return {self.__label_name: [self.__lemma2id.get(obj.lemma, OOV)]}
+        return {self.__label_name: [self.__lemma2id.get(obj.lemma, 0)]}
 
 
 class LemmaDictInterpreter(builder.InterpreterInterface[DocumentToken, List[int]]):
-- 
2.43.0


From 9b2136c4b24ca281faa815096a66ec69a858e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 11/26] fix: sparsification with rate 0 must never replace a
 feature

---
 babylondigger/features/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/builder.py b/babylondigger/features/builder.py
index 08367c5..0964bc2 100644
--- a/babylondigger/features/builder.py
+++ b/babylondigger/features/builder.py
@@ -185,7 +185,7 @@ class SparseFeatureExtractor(FeatureExtractorInterface[_T, _V]):
 
 def _sparse_rate_sequence(input_, sparse_rate):
     if isinstance(input_, int):
-        return input_ if random.random() > sparse_rate else OOV
+        return input_ if random.random() >= sparse_rate else OOV
     elif isinstance(input_, list):
         return [_sparse_rate_sequence(el, sparse_rate) for el in input_]
     else:
-- 
2.43.0


From 622391a9284673039e966575eff229984d0b6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 12/26] fix: sum of task losses without loss_weights

---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 45a2533..1a3c9c7 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -52,7 +52,7 @@ class DenseTaskNetworkBuilder(AbstractTaskNetworkBuilder):
 
     def _sum_losses(self, losses):
         if self.__loss_weights is None:
-            return tf.reduce_sum(tf.stack(losses), name='loss')
+            return tf.reduce_sum(tf.stack(list(losses.values())), name='loss')
 
         weighted_losses = []
         for loss in losses:
-- 
2.43.0


From e5fb8d479e7a218be95cd5e888340c5b54dff94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 13/26] fix: task builders have no initializers by default

---
 babylondigger/neural/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/network.py b/babylondigger/neural/network.py
index 96fe062..eb4462e 100644
--- a/babylondigger/neural/network.py
+++ b/babylondigger/neural/network.py
@@ -96,7 +96,7 @@ class AbstractTaskNetworkBuilder(object):
         pass
 
     def initializers(self) -> List['NeuralNetworkInitializer']:
-        pass
+        return []
 
 
 class AbstractSharedNetworkBuilder(object):
-- 
2.43.0


From 81a02b5da0e58106919a168f7b683009b4411ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 14/26] fix: do not grow the shared builder's provider list on
 every call

---
 babylondigger/neural/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/network.py b/babylondigger/neural/network.py
index eb4462e..3163534 100644
--- a/babylondigger/neural/network.py
+++ b/babylondigger/neural/network.py
@@ -120,7 +120,7 @@ class MultitaskNetworkBuilder(NeuralNetworkBuilder):
         self._optimizer_dict = config['optimizer']
 
     def feature_providers(self):
-        result = self.__shared_builder.feature_providers()
+        result = list(self.__shared_builder.feature_providers())
         for task_builder in self.__task_builders:
             result.extend(task_builder.feature_providers())
         return result
-- 
2.43.0


From 3fc9f231ffe86e62ff20234c2b0b011e0bc54b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 15/26] fix: average scores of metrics that have no aligned
 accuracy

---
 babylondigger/evaluation/evaluation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 72346a5..046ae00 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -5,7 +5,7 @@ import argparse
 import json
 import os
 import shutil
-from collections import namedtuple, defaultdict
+from collections import namedtuple
 from babylondigger.tagger import TaggerInterface, TaggerTrainerInterface
 from babylondigger.datamodel import Document, Token
 from babylondigger.evaluation.conllu_io import CoNLLUWriter
@@ -232,16 +232,16 @@ def get_metrics_averager(metrics: List[str]):
     _Scores = namedtuple('Scores', ['precision', 'recall', 'f1', 'aligned_accuracy'])
 
     def calculate_average_scores(scores):
-        sums = {metric: defaultdict(int) for metric in metrics}
+        sums = {metric: dict(precision=0, recall=0, f1=0, aligned_accuracy=None) for metric in metrics}
         for score in scores:
             for metric in metrics:
                 sums[metric]['precision'] += score[metric].precision
                 sums[metric]['recall'] += score[metric].recall
                 sums[metric]['f1'] += score[metric].f1
                 if score[metric].aligned_accuracy is not None:
-                    sums[metric]['aligned_accuracy'] += score[metric].aligned_accuracy
+                    sums[metric]['aligned_accuracy'] = (sums[metric]['aligned_accuracy'] or 0) + score[metric].aligned_accuracy
 
-        return {metric: _Scores(**{key: value / len(scores) for key, value in sums[metric].items()}) for metric in
+        return {metric: _Scores(**{key: value / len(scores) if value is not None else None for key, value in sums[metric].items()}) for metric in
                 metrics}
 
     return calculate_average_scores
-- 
2.43.0


From 27ddcc225127e63f899c85f33b590e2b2f407b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 16/26] fix: average the metrics that model comparison needs

---
 babylondigger/evaluation/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 046ae00..05c906a 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -259,7 +259,8 @@ def main(args):
 
     trainer = get_trainer(args.method)
 
-    metrics_averager = get_metrics_averager(args.settings["metric_printer"]["fields"])
+    averaged_fields = set(args.settings["metric_printer"]["fields"] + args.settings["cmp_metric"]["fields"])
+    metrics_averager = get_metrics_averager(sorted(averaged_fields))
     estimator = __build_estimator(args, metrics_printer, metrics_averager)
     hyperparams = args.hyperparams
     if not isinstance(hyperparams, list):
-- 
2.43.0


From 008f6405ddce0db88e1be27e31e03fdd553e2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 17/26] fix: stub trainer must report dev scores like the other
 trainers

---
 babylondigger/tagger.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/babylondigger/tagger.py b/babylondigger/tagger.py
index 07f3465..27082c7 100644
--- a/babylondigger/tagger.py
+++ b/babylondigger/tagger.py
@@ -37,9 +37,9 @@ class StubTagger(TaggerInterface):
 
 class StubTaggerTrainer(TaggerTrainerInterface):
 
-    def train(self, documents: Iterable[Document], **kwargs):
-        pos = self.get_most_frequent_pos(documents)
-        return [StubTagger(pos)]
+    def train(self, documents: Iterable[Document], dev_tester=None, **kwargs):
+        tagger = StubTagger(self.get_most_frequent_pos(documents))
+        return [(dev_tester(tagger), tagger)] if dev_tester is not None else [tagger]
 
     def get_most_frequent_pos(self, documents: Iterable[Document]) -> Pos:
         tokens = map(lambda document: document.tokens, documents)
-- 
2.43.0


From 5a2efe4d5663687f8f055f94bb660265f9dbaf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 18/26] fix: grid combinations must not share mutable grid
 values

---
 babylondigger/evaluation/grid_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/grid_eval.py b/babylondigger/evaluation/grid_eval.py
index d435658..1ad2717 100644
--- a/babylondigger/evaluation/grid_eval.py
+++ b/babylondigger/evaluation/grid_eval.py
@@ -10,7 +10,7 @@ def __merge_dicts(hyper_dict, grid_dict):
             if isinstance(hyper_dict[key], dict) and isinstance(grid_dict[key], dict):
                 __merge_dicts(hyper_dict[key], grid_dict[key])
             else:
-                hyper_dict[key] = grid_dict[key]
+                hyper_dict[key] = copy.deepcopy(grid_dict[key])
         else:
             raise ValueError("Undefined parameter: {}".format(key))
     return hyper_dict
-- 
2.43.0


From 194a57c43f85b370dc832b6a64e03cf454de26de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 19/26] fix: DocumentComplexProcessor must survive being given
 a one-shot iterable

---
 babylondigger/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/processor.py b/babylondigger/processor.py
index 71e34dd..0767eab 100644
--- a/babylondigger/processor.py
+++ b/babylondigger/processor.py
@@ -16,7 +16,7 @@ class DocumentProcessorInteface(object):
 
 class DocumentComplexProcessor(DocumentProcessorInteface):
     def __init__(self, processors: Iterable[DocumentProcessorInteface]):
-        self.__processors = processors
+        self.__processors = list(processors)
 
     def process(self, documents: Iterator[Document]) -> Iterator[Document]:
         result = documents
-- 
2.43.0


From d6c4f2bd3eca6209b90210d3555bf0f375c002e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 20/26] fix: report the real error when a TDozat processor is
 used outside its context

---
 babylondigger/wrappers/tdozat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index 9de721e..b50fdfb 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -58,7 +58,7 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
 
     def process(self, documents: Iterator[Document]) -> Iterator[Document]:
         if self._sess is None:
-            raise RuntimeError(f'Use {self.__name__} as context manager')
+            raise RuntimeError(f'Use {type(self).__name__} as context manager')
         documents_list = list(documents)
         return iter(self.__parse_documents(documents_list))
 
-- 
2.43.0


From b1158d9e6198a5bbb8f3cf90cf5082f0b8baf848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 21/26] fix: close the TDozat session when restoring the model
 fails

---
 babylondigger/wrappers/tdozat.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index b50fdfb..c56120f 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -78,8 +78,13 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
         config.allow_soft_placement = True
 
         self._sess = tf.Session(graph=self.__g, config=config)
-        self._sess.run(tf.variables_initializer(list(non_save_variables)))
-        saver.restore(self._sess, tf.train.latest_checkpoint(self.__network.save_dir))
+        try:
+            self._sess.run(tf.variables_initializer(list(non_save_variables)))
+            saver.restore(self._sess, tf.train.latest_checkpoint(self.__network.save_dir))
+        except Exception:
+            self._sess.close()
+            self._sess = None
+            raise
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From 69b56827c5db89603ffd59751a0d44736b8153f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 22/26] fix: close the CoNLL-U file after loading it for
 evaluation

---
 babylondigger/evaluation/conll17_ud_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 3f16d69..4f4e97c 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -462,8 +462,8 @@ def load_deprel_weights(weights_file):
     return deprel_weights
 
 def load_conllu_file(path):
-    _file = open(path, mode="r", **({"encoding": "utf-8"} if sys.version_info >= (3, 0) else {}))
-    return load_conllu(_file)
+    with open(path, mode="r", **({"encoding": "utf-8"} if sys.version_info >= (3, 0) else {})) as _file:
+        return load_conllu(_file)
 
 def evaluate_wrapper(args):
     # Load CoNLL-U files
-- 
2.43.0


From 6699a145ddf685bbbf1a0d726cf8e42ac8583a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 23/26] fix: read json configuration as UTF-8 whatever the
 locale is

---
 babylondigger/evaluation/evaluation.py | 4 ++--
 babylondigger/evaluation/grid_eval.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 05c906a..89ad95c 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -346,9 +346,9 @@ def _build_parser():
 
 def _parse_arguments(parser):
     args = parser.parse_args()
-    with open(args.settings) as f:
+    with open(args.settings, encoding='utf-8') as f:
         settings = json.load(f)
-    with open(args.hypers) as f:
+    with open(args.hypers, encoding='utf-8') as f:
         hyperparams = json.load(f)
     return _Arguments(settings, args.method, hyperparams, args.delete_after)
 
diff --git a/babylondigger/evaluation/grid_eval.py b/babylondigger/evaluation/grid_eval.py
index 1ad2717..3a422ec 100644
--- a/babylondigger/evaluation/grid_eval.py
+++ b/babylondigger/evaluation/grid_eval.py
@@ -20,7 +20,7 @@ def __parse_arguments_with_grid():
     parser = evl._build_parser()
     parser.add_argument('--grid', dest='grid', help='path to json file')
     args = parser.parse_args()
-    with open(args.grid) as f:
+    with open(args.grid, encoding='utf-8') as f:
         grid = json.load(f)
     return evl._parse_arguments(parser), grid
 
-- 
2.43.0


From 30eedb1fc895372fab47ea9bb286725676ce430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:08 +0000
Subject: [PATCH 24/26] fix: reject syntactic heads that lie before the
 sentence instead of turning them into roots

---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 32defa9..8dea3e1 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -243,6 +243,9 @@ class Token(object):
         elif head_document_index != head_sentence_index + sentence_start:
             raise ValueError('Broken token {}. Mismatch syntactic head (document view: {}, sentence view: {}, sentence start: {})'
                              .format(token, head_document_index, head_sentence_index, sentence_start))
+        if head_sentence_index < 0:
+            raise ValueError('Broken token {}. Syntactic head refers outside of the sentence (sentence start: {})'
+                             .format(token, sentence_start))
         return token.with_syntax(token, token.__deprel, head_document_index=head_document_index, head_sentence_index=head_sentence_index)
 
 
-- 
2.43.0


From 3f22ec69c353e5cf3ba2eb8e0af4a8eeedbcd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 25/26] fix: skip empty nodes inside a multiword token when
 reading CoNLL-U

---
 babylondigger/evaluation/conllu_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 4807eb4..9ffbce4 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -86,6 +86,8 @@ class _MultiWordReaderState(_AbstractReaderState):
         self._token_end = token_end
 
     def _process_token(self, parsed_token: 'InternalToken') -> _AbstractReaderState:
+        if '.' in parsed_token.id:  # empty token
+            return self
         self._tokens.append(Token(start=self._token_start, end=self._token_end,
                                   pos=parsed_token.pos, lemma=parsed_token.lemma,
                                   head_sentence_index=self._compute_head(parsed_token.head), deprel=parsed_token.deprel,
-- 
2.43.0


From b313d23dbc670e4d640ec8e9b5aea2f06e231acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 26/26] fix: list an exception rule as applicable only to the
 whole word

---
 babylondigger/lemmas/transformation_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/lemmas/transformation_rules.py b/babylondigger/lemmas/transformation_rules.py
index 0b2a905..738fa84 100644
--- a/babylondigger/lemmas/transformation_rules.py
+++ b/babylondigger/lemmas/transformation_rules.py
@@ -128,8 +128,8 @@ class LemmaTransformationTrie(object):
             if child is None:
                 break
             current = child
-
-        _extend(result, current.__exceptions)
+        else:
+            _extend(result, current.__exceptions)
         return result
 
     @classmethod
-- 
2.43.0

