PROPERTY = 'C03'
NEEDS = 'two equal POS values whose features were inserted in different orders'
BREAKS = 'equal POS values hash differently'
EDITS = [('babylondigger/datamodel.py', "tuple(sorted(self.__feats.items()))", "tuple(self.__feats.items())")]
DEMO = """
from babylondigger.datamodel import Pos
a = Pos('NOUN', 'N', {'Case': 'Nom', 'Number': 'Sing'})
b = Pos('NOUN', 'N', {'Number': 'Sing', 'Case': 'Nom'})
assert a == b
assert hash(a) == hash(b)
assert not a < b and not b < a
"""
