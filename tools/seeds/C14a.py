PROPERTY = 'C14'
NEEDS = 'an embedding file that lists a word twice'
BREAKS = 'the announced number of embeddings exceeds the ids, and vectors are attached to other words'
EDITS = [('babylondigger/features/extractors.py', """        word2id = {word: index for index, word in enumerate(word2vec, 2)}

        return WordEmbeddingFeatureExtractor(self.__feature_name, word2id, self.__lowercase), \\
               builder.DoNothingInterpreter(), \\
               EmbeddingInitializer(self.__initializer_name, word2id, word2vec, embed_size, len(word2id) + 2)
""", """        if self.__lowercase:
            word2vec = {word.lower(): vec for word, vec in word2vec.items()}
        word2id = {word: index for index, word in enumerate(word2vec, 2)}

        return WordEmbeddingFeatureExtractor(self.__feature_name, word2id, self.__lowercase), \\
               builder.DoNothingInterpreter(), \\
               EmbeddingInitializer(self.__initializer_name, word2id, word2vec, embed_size, len(word2id) + 2)
""")]
NEEDS = 'lower-casing and an embedding file with a word in two spellings'
BREAKS = 'ids and vectors are those of the lower-cased file: a capitalised word takes the id and overwrites the vector'
DEMO = """
import os, tempfile
from babylondigger.datamodel import Token, Document, Sentence
from babylondigger.features.extractors import WordEmbeddingFeatureExtractorBuilder as B
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'v')
    with open(p, 'w') as f:
        f.write('us 1.0 2.0\\nUS 3.0 4.0\\n')
    e, i, z = B('f', 'init', p, True).build([])
    t = next(iter((Document('US', [Token(0, 2)], [Sentence(0, 1)]))))
    n = e.get_features(t)['f']
    vec = dict((k, list(v)) for k, v in z.initial_values()['init'])
assert vec[n] == [1.0, 2.0], vec
"""
