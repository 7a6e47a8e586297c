PROPERTY = 'C13'
NEEDS = 'a rule and an exception of the same suffixes'
BREAKS = 'neither of two different rules is less than the other'
EDITS = [('babylondigger/lemmas/transformation_rules.py',
"""        return self.__word_suffix, self.__lemma_suffix, self.__exception
""",
"""        return self.__word_suffix, self.__lemma_suffix
""")]
DEMO = """
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation as R
a, b = R('s', 'm', True), R('s', 'm', False)
assert a != b and (a < b) != (b < a)
"""
