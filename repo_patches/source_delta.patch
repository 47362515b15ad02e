From ca39537f2424f9b96530644837841937a5b194af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:24 +0000
Subject: [PATCH 01/24] fix: count the n-gram indices in the ExplicitVocab
 chunk length

---
 src/finalfusion/vocab/subword.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/vocab/subword.py b/src/finalfusion/vocab/subword.py
index 45193fe..fc2f765 100644
--- a/src/finalfusion/vocab/subword.py
+++ b/src/finalfusion/vocab/subword.py
@@ -373,6 +373,9 @@ class ExplicitVocab(SubwordVocab):
         chunk_length = _calculate_binary_list_size(self.words)
         chunk_length += _calculate_binary_list_size(
             self.subword_indexer.ngrams)
+        # each n-gram is followed by its index
+        chunk_length += len(
+            self.subword_indexer.ngrams) * struct.calcsize("<Q")
         min_n_max_n_size = struct.calcsize("<II")
         chunk_length += min_n_max_n_size
         chunk_header = (int(self.chunk_identifier()), chunk_length,
-- 
2.43.0


From 389fe11bc5a2c371a5e27bb1878249a130e480d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:24 +0000
Subject: [PATCH 02/24] fix: refuse norms that are not float32

---
 src/finalfusion/norms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index c931dad..ff4068a 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -38,8 +38,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         AssertionError
             If array is not a 1-d array of float32 values.
         """
-        if not np.issubdtype(array.dtype,
-                             np.float32) != np.float32 or array.ndim != 1:
+        if not np.issubdtype(array.dtype, np.float32) or array.ndim != 1:
             raise TypeError(
                 f"expected 1-d float32 array, not {array.ndim}-d {array.dtype}"
             )
-- 
2.43.0


From 0c14932db8bb0a1f89a906157f16f420e3bcc6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 03/24] fix: allow similarity queries that ask for more results
 than there are words

---
 src/finalfusion/embeddings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index ee86099..82389a7 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -609,9 +609,11 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
                            if skip is not None)
-        partition = sims.argpartition(-k -
-                                      len(skip_indices))[-k -
-                                                         len(skip_indices):]
+        n_candidates = k + len(skip_indices)
+        if n_candidates < len(sims):
+            partition = sims.argpartition(-n_candidates)[-n_candidates:]
+        else:
+            partition = range(len(sims))
 
         heap = []  # type: List[SimilarityResult]
         for idx in partition:
-- 
2.43.0


From 8b37ea1b74be72182608491cc0865da41d463dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 04/24] fix: support similarity queries on quantized storage

---
 src/finalfusion/embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 82389a7..19033b0 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -604,7 +604,7 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
 
     def _similarity(self, query: np.ndarray, k: int,
                     skips: Set[str]) -> List['SimilarityResult']:
-        words = self.storage[:len(self.vocab)]  # type: np.ndarray
+        words = np.asarray(self.storage[:len(self.vocab)])
         sims = words.dot(query)
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
-- 
2.43.0


From 53760dd60330e5a9e63833c99c80e73dc1f5627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 05/24] fix: scale by the norms when iterating over a
 QuantizedArray

---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 80bbb0c..a2971ec 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -271,7 +271,7 @@ class QuantizedArray(Storage):
         return self.embedding(key)
 
     def __iter__(self) -> Iterator[np.ndarray]:
-        return map(self._quantizer.reconstruct, self._quantized_embeddings)
+        return map(self.embedding, range(len(self)))
 
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
-- 
2.43.0


From ce7c087354f329967ad297105df4d9c2845afdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 06/24] fix: accept a dtype when converting a QuantizedArray to
 an array

---
 src/finalfusion/storage/quantized.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index a2971ec..632998c 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -276,11 +276,11 @@ class QuantizedArray(Storage):
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
 
-    def __array__(self) -> np.ndarray:
-        if self._norms is None:
-            return self._quantizer.reconstruct(self._quantized_embeddings)
-        return self._norms[:, None] * self._quantizer.reconstruct(
-            self._quantized_embeddings)
+    def __array__(self, dtype=None) -> np.ndarray:
+        array = self._quantizer.reconstruct(self._quantized_embeddings)
+        if self._norms is not None:
+            array = self._norms[:, None] * array
+        return array if dtype is None else array.astype(dtype, copy=False)
 
     @classmethod
     def load(cls, file: BinaryIO, mmap=False) -> 'QuantizedArray':
-- 
2.43.0


From 7d1d2ac963724f66e3a938c70eb4984e00a3ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 07/24] fix: allow explicit indexers with an empty n-gram table

---
 src/finalfusion/subword/explicit_indexer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index 968c461..c99c6f0 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -51,7 +51,7 @@ cdef class ExplicitIndexer:
                 f'ngrams cannot contain duplicate entries. {len(ngrams) - n_unique_ngrams} duplicates.'
             assert all(ngram in ngram_index for ngram in unique_ngrams) and (len(ngram_index) == len(ngrams)), \
                 'ngram_index needs to index all and only items in the ngrams list.'
-            max_idx = max(ngram_index.values())
+            max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
             assert max_idx + 1 == n_unique_vals, \
                 f"Indices need to cover 0, max(ngram_index.values())"
-- 
2.43.0


From 1c69324810351194c3d6eba98d74c62eef6950b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 08/24] fix: refuse negative indices in explicit n-gram tables

---
 src/finalfusion/subword/explicit_indexer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index c99c6f0..59ba6de 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -53,7 +53,7 @@ cdef class ExplicitIndexer:
                 'ngram_index needs to index all and only items in the ngrams list.'
             max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
-            assert max_idx + 1 == n_unique_vals, \
+            assert min(ngram_index.values(), default=0) == 0 and max_idx + 1 == n_unique_vals, \
                 f"Indices need to cover 0, max(ngram_index.values())"
             self._bound = max_idx + 1
         self._ngram_index = ngram_index
-- 
2.43.0


From eb6fc893b327218d73051c9baa8c5c54e8178d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 09/24] fix: keep non-ASCII spaces in words when loading
 word2vec files

---
 src/finalfusion/compat/word2vec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 32dbc82..6a0214e 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -2,6 +2,7 @@
 Word2vec binary format.
 """
 
+import string
 import sys
 from os import PathLike
 from typing import Union, BinaryIO, AnyStr
@@ -45,7 +46,9 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         rows, cols = map(int, inf.readline().decode("ascii").split())
         matrix = np.zeros((rows, cols), dtype=np.float32)
         for row in matrix:
-            words.append(_read_binary_word(inf, b' ', lossy).strip())
+            # rows may end with a newline, non-ASCII spaces are part of words
+            words.append(
+                _read_binary_word(inf, b' ', lossy).strip(string.whitespace))
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
             if sys.byteorder == "big":
                 array.byteswap(inplace=True)
-- 
2.43.0


From 1418b6de45196cabc62a3622f9ba96b6312bac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 10/24] fix: refuse word2vec files that end within a vector

---
 src/finalfusion/compat/word2vec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 6a0214e..a3c126a 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -50,6 +50,8 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
             words.append(
                 _read_binary_word(inf, b' ', lossy).strip(string.whitespace))
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
+            if len(array) != cols:
+                raise EOFError
             if sys.byteorder == "big":
                 array.byteswap(inplace=True)
             row[:] = array
-- 
2.43.0


From e0f7cb95b6a3191d7721d4c5af054a7355a27523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 11/24] fix: refuse lines with a single component in text
 embeddings

---
 src/finalfusion/compat/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finalfusion/compat/text.py b/src/finalfusion/compat/text.py
index dd7f8d9..c834a87 100644
--- a/src/finalfusion/compat/text.py
+++ b/src/finalfusion/compat/text.py
@@ -146,6 +146,10 @@ def _load_text(file: TextIO, rows: int, cols: int) -> Embeddings:
     for row, line in zip(matrix, file):
         parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
         words.append(parts[0])
+        if len(parts[1:]) != cols:
+            raise ValueError(
+                f"Expected {cols} components, got {len(parts[1:])}: {parts[0]}"
+            )
         row[:] = parts[1:]
     storage = NdArray(matrix)
     return Embeddings(storage=storage,
-- 
2.43.0


From 33b8b01bdb66ce34bca210faab6f52d2eb17774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 12/24] fix: don't turn zero vectors into NaNs when normalizing

---
 src/finalfusion/_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/_util.py b/src/finalfusion/_util.py
index 5fa82f8..4a849d2 100644
--- a/src/finalfusion/_util.py
+++ b/src/finalfusion/_util.py
@@ -8,7 +8,8 @@ from finalfusion.norms import Norms
 
 def _normalize_matrix(storage: np.ndarray) -> Norms:
     norms = np.linalg.norm(storage, axis=1)
-    storage /= norms[:, None]
+    # zero vectors can't be normalized, they are left unchanged
+    storage /= np.where(norms == 0, 1, norms)[:, None]
     return Norms(norms)
 
 
-- 
2.43.0


From fd81016e7039abd4f40baed57a1243543171bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 13/24] fix: don't return NaNs for n-gram rows and analogies
 that add up to zero

---
 src/finalfusion/embeddings.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 19033b0..df0bc06 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -518,7 +518,9 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
             return None
         diff = embed_b - embed_a
         embed_d = embed_c + diff
-        embed_d /= np.linalg.norm(embed_d)
+        norm = np.linalg.norm(embed_d)
+        if norm != 0:
+            embed_d /= norm
         return self._similarity(
             embed_d, k, {word1, word2, word3} if skip is None else skip)
 
@@ -639,7 +641,8 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         else:
             out = np.add.reduce(res, 0, out=out, keepdims=False)
             norm = np.linalg.norm(out)
-            out /= norm
+            if norm != 0:
+                out /= norm
         return out, norm
 
     @staticmethod
-- 
2.43.0


From 44200569a00e1dd7f3e993641ff97aedab2ca46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 14/24] fix: refuse vocabularies that end within a word

---
 src/finalfusion/vocab/vocab.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/vocab/vocab.py b/src/finalfusion/vocab/vocab.py
index b24ac31..98931e7 100644
--- a/src/finalfusion/vocab/vocab.py
+++ b/src/finalfusion/vocab/vocab.py
@@ -6,7 +6,7 @@ import struct
 from typing import List, Optional, Dict, Tuple, BinaryIO, Iterable, Any, Union, Sequence, \
     Iterator, Collection
 
-from finalfusion.io import Chunk, _read_required_binary, _write_binary
+from finalfusion.io import Chunk, FinalfusionFormatError, _read_required_binary, _write_binary
 
 
 class Vocab(Chunk, Collection[str]):
@@ -111,6 +111,17 @@ def _write_words_binary(b_words: Iterable[bytes], file: BinaryIO):
         file.write(word)
 
 
+def _read_item(file: BinaryIO, item_length: int) -> str:
+    """
+    Helper method to read a single item of the given length in bytes.
+    """
+    item = file.read(item_length)
+    if len(item) != item_length:
+        raise FinalfusionFormatError(
+            f'Could not read {item_length} bytes from file')
+    return item.decode("utf-8")
+
+
 def _read_items(file: BinaryIO, length: int) -> List[str]:
     """
     Helper method to read items from a vocabulary chunk.
@@ -130,7 +141,7 @@ def _read_items(file: BinaryIO, length: int) -> List[str]:
     items = []
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        word = file.read(item_length).decode("utf-8")
+        word = _read_item(file, item_length)
         items.append(word)
     return items
 
@@ -156,7 +167,7 @@ def _read_items_with_indices(file: BinaryIO,
     index = dict()
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        item = file.read(item_length).decode("utf-8")
+        item = _read_item(file, item_length)
         idx = _read_required_binary(file, "<Q")[0]
         items.append(item)
         index[item] = idx
-- 
2.43.0


From cf992991540759b829a5bea3cc6f1391a91fbb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 15/24] fix: refuse norms chunks that end early

---
 src/finalfusion/norms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index ff4068a..9f11441 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -58,6 +58,9 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         padding = _pad_float32(file.tell())
         file.seek(padding, 1)
         array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
+        if len(array) != n_norms:
+            raise FinalfusionFormatError(
+                f'Could not read {n_norms} norms from file')
         if sys.byteorder == "big":
             array.byteswap(inplace=True)
         return Norms(array)
-- 
2.43.0


From 9085b2cac51241b96ff34ecf233d4334244f93af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 16/24] fix: refuse embeddings that end before the announced
 norms

---
 src/finalfusion/embeddings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index df0bc06..8c596b1 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -686,7 +686,7 @@ def load_finalfusion(file: Union[str, bytes, int, PathLike],
         The embeddings from the input file.
     """
     with open(file, 'rb') as inf:
-        _ = Header.read_chunk(inf)
+        header = Header.read_chunk(inf)
         chunk_id, _ = _read_required_chunk_header(inf)
         norms = None
         metadata = None
@@ -722,6 +722,8 @@ def load_finalfusion(file: Union[str, bytes, int, PathLike],
             else:
                 raise FinalfusionFormatError(
                     f'Expected norms chunk, not {str(chunk_id)}')
+        elif ChunkIdentifier.NdNorms in header.chunk_ids:
+            raise FinalfusionFormatError('File ends before the norms chunk')
 
         return Embeddings(storage, vocab, norms, metadata, inf.name)
 
-- 
2.43.0


From c3780c7a02ff8ada4b6739619f6194f9a55d20f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 17/24] fix: support writing quantized embeddings to fastText
 files

---
 src/finalfusion/compat/fasttext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 34d3367..ea9dc1b 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -109,7 +109,7 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
             _write_ft_storage_simple(outf, embeds)
         else:
             _write_ft_storage_subwords(outf, embeds)
-        _serialize_array_as_le(outf, embeds.storage)
+        _serialize_array_as_le(outf, np.asarray(embeds.storage))
 
 
 def _read_ft_header(file: BinaryIO):
@@ -295,7 +295,7 @@ def _write_ft_storage_subwords(outf: BinaryIO, embeds: Embeddings):
         embed -= sw_embeds.sum(0, keepdims=False)
         _serialize_array_as_le(outf, embed)
 
-    _serialize_array_as_le(outf, storage[len(vocab):])
+    _serialize_array_as_le(outf, np.asarray(storage[len(vocab):]))
 
 
 def _write_ft_storage_simple(outf: BinaryIO, embeds: Embeddings):
-- 
2.43.0


From 32d6cd4466cfb1ead05f4475cf200f5c69fd3b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 18/24] fix: don't truncate the output file when refusing to
 write fastText

---
 src/finalfusion/compat/fasttext.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index ea9dc1b..ea73b5e 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -95,11 +95,11 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
     embeds : Embeddings
         Embeddings to write
     """
+    vocab = embeds.vocab
+    if not isinstance(vocab, FastTextVocab):
+        raise ValueError(
+            f'Expected FastTextVocab, not: {type(embeds.vocab).__name__}')
     with open(file, 'wb') as outf:
-        vocab = embeds.vocab
-        if not isinstance(vocab, FastTextVocab):
-            raise ValueError(
-                f'Expected FastTextVocab, not: {type(embeds.vocab).__name__}')
         _write_binary(outf, "<ii", _FT_MAGIC, 12)
         _write_ft_cfg(outf, embeds.dims, vocab.subword_indexer.n_buckets,
                       vocab.min_n, vocab.max_n)
-- 
2.43.0


From 230e1749f78172a9104e0dd18c4bd140500e70a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 19/24] fix: skip the third query word in ffp-analogy unless it
 is included

---
 src/finalfusion/scripts/analogy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/scripts/analogy.py b/src/finalfusion/scripts/analogy.py
index 934c450..1bf5cb9 100644
--- a/src/finalfusion/scripts/analogy.py
+++ b/src/finalfusion/scripts/analogy.py
@@ -72,7 +72,7 @@ def get_skips(  # pylint: disable=missing-function-docstring
     if 'b' not in includes:
         skips.add(query_b)
     if 'c' not in includes:
-        skips.add(query_b)
+        skips.add(query_c)
     return skips
 
 
-- 
2.43.0


From 997a17872c6ee441d67cc53b6ca9ac1c21594e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 20/24] fix: leave out unrepresentable words in ffp-select
 --ignore_unk

---
 src/finalfusion/scripts/select.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/scripts/select.py b/src/finalfusion/scripts/select.py
index 5ae4b27..be97716 100644
--- a/src/finalfusion/scripts/select.py
+++ b/src/finalfusion/scripts/select.py
@@ -45,15 +45,18 @@ def main() -> None:  # pylint: disable=missing-function-docstring
         unique_words = set(word.strip() for word in inp)
         matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                           dtype=np.float32)
-        vocab = SimpleVocab(list(unique_words))
-        for i, word in enumerate(vocab):
+        words = []
+        for word in unique_words:
             try:
-                matrix[i] = embeds[word]
+                matrix[len(words)] = embeds[word]
+                words.append(word)
             except KeyError:
                 if args.verbose or not args.ignore_unk:
                     print(f"Cannot represent '{word}'.", file=sys.stderr)
                 if not args.ignore_unk:
                     sys.exit(1)
+    vocab = SimpleVocab(words)
+    matrix = matrix[:len(words)]
     metadata = Metadata({"source_embeddings": args.input})
     if embeds.metadata is not None:
         metadata["source_metadata"] = embeds.metadata
-- 
2.43.0


From 6b6bafa7ab35eeaac445533e47593c74bedddeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 21/24] fix: refuse empty storage and norms chunks that end
 within the padding

---
 src/finalfusion/norms.py           | 2 +-
 src/finalfusion/storage/ndarray.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index 9f11441..cd7165b 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -56,7 +56,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
             raise FinalfusionFormatError(
                 f"Invalid Type, expected {TypeId.f32}, got {str(type_id)}")
         padding = _pad_float32(file.tell())
-        file.seek(padding, 1)
+        _read_required_binary(file, f"{padding}x")
         array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
         if len(array) != n_norms:
             raise FinalfusionFormatError(
diff --git a/src/finalfusion/storage/ndarray.py b/src/finalfusion/storage/ndarray.py
index 12834e9..35bb19d 100644
--- a/src/finalfusion/storage/ndarray.py
+++ b/src/finalfusion/storage/ndarray.py
@@ -120,7 +120,7 @@ class NdArray(np.ndarray, Storage):
         if TypeId.f32 != type_id:
             raise FinalfusionFormatError(
                 f"Invalid Type, expected {TypeId.f32}, got {type_id}")
-        file.seek(_pad_float32(file.tell()), 1)
+        _read_required_binary(file, f"{_pad_float32(file.tell())}x")
         return rows, cols
 
     def write_chunk(self, file: BinaryIO):
-- 
2.43.0


From 6fb647b7f38d15659c0f4900791a21484638029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:04 +0000
Subject: [PATCH 22/24] fix: reconstruct projected vectors whatever the memory
 layout

PQ.reconstruct applied the projection in place, which numpy refuses for
output buffers and quantizers that are not C-contiguous native arrays.
---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 632998c..7222c27 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -149,7 +149,7 @@ class PQ:
             out[:] = self._quantizers[quantizers_range, quantized].reshape(
                 out.shape)
         if self.projection is not None:
-            out.dot(self.projection.T, out=out)
+            out[...] = out.dot(self.projection.T)
         return out
 
 
-- 
2.43.0


From 8f81123175e51a2409a0c905f829170831accbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:35 +0000
Subject: [PATCH 23/24] fix: report array data that could not be written

---
 src/finalfusion/io.py                | 8 +++++---
 src/finalfusion/storage/quantized.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 418f746..a9aa00c 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -316,14 +316,16 @@ def _serialize_array_as_le(file: BinaryIO, array: np.ndarray):
     native_is_le = sys.byteorder == "little"
     array_bo = array.dtype.byteorder
     array_is_le = array_bo in "<|" or (array_bo == "=" and native_is_le)
+    # write through the file since ndarray.tofile doesn't report errors that only
+    # surface when its own buffer gets flushed, e.g. if the disk is full
     if array_is_le:
-        array.tofile(file)
+        file.write(np.ascontiguousarray(array))
     else:
         if array.ndim == 2:
             for row in array:
-                row.byteswap(inplace=False).tofile(file)
+                file.write(np.ascontiguousarray(row.byteswap(inplace=False)))
         else:
-            array.byteswap(inplace=False).tofile(file)
+            file.write(np.ascontiguousarray(array.byteswap(inplace=False)))
 
 
 def _read_array_as_native(file: BinaryIO, dtype: np.dtype,
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 7222c27..b11914e 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -336,7 +336,7 @@ class QuantizedArray(Storage):
         _serialize_array_as_le(file, self.quantizer.subquantizers)
         if norms:
             _serialize_array_as_le(file, self._norms)
-        self._quantized_embeddings.tofile(file)
+        _serialize_array_as_le(file, self._quantized_embeddings)
 
     @staticmethod
     def chunk_identifier() -> ChunkIdentifier:
-- 
2.43.0


From bfab1a14872feaa4e29bf793078a2f65a0abdb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:46 +0000
Subject: [PATCH 24/24] fix: memory-map files given by descriptor

---
 src/finalfusion/storage/ndarray.py   | 4 ++--
 src/finalfusion/storage/quantized.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/storage/ndarray.py b/src/finalfusion/storage/ndarray.py
index 35bb19d..c3daefc 100644
--- a/src/finalfusion/storage/ndarray.py
+++ b/src/finalfusion/storage/ndarray.py
@@ -84,12 +84,12 @@ class NdArray(np.ndarray, Storage):
                 "Memmapping arrays is not supported on big endian platforms")
         rows, cols = NdArray._read_array_header(file)
         offset = file.tell()
-        file.seek(rows * cols * struct.calcsize('f'), 1)
-        array = np.memmap(file.name,
+        array = np.memmap(file,
                           dtype='<f4',
                           mode='r',
                           offset=offset,
                           shape=(rows, cols))
+        file.seek(offset + rows * cols * struct.calcsize('f'))
         return NdArray(array)
 
     @staticmethod
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index b11914e..cedf263 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -305,12 +305,12 @@ class QuantizedArray(Storage):
             file)
         n_embeddings, quantized_len = embeds_shape
         offset = file.tell()
-        file.seek(n_embeddings * quantized_len, 1)
-        quantized_embeddings = np.memmap(file.name,
+        quantized_embeddings = np.memmap(file,
                                          dtype=np.uint8,
                                          mode='r',
                                          offset=offset,
                                          shape=embeds_shape)
+        file.seek(offset + n_embeddings * quantized_len)
         return QuantizedArray(quantizer, quantized_embeddings, norms)
 
     def write_chunk(self, file: BinaryIO):
-- 
2.43.0

