PROPERTY = 'C02'
NEEDS = 'extras holding a list which the caller keeps and changes after updating'
BREAKS = 'the updated extras change along with the list'
EDITS = [('babylondigger/datamodel.py',
"""        result = self.__extras.copy()
        result.update(updates)
        return TokenExtras(result)""",
"""        result = TokenExtras(self.__extras)
        result.__extras.update(updates)
        return result""")]
DEMO = """
from babylondigger.datamodel import Token, TokenExtras
groups = ['a']
t = Token.update_extras(Token(0, 1, extras=TokenExtras({'x': 1})), {'groups': groups})
groups.append('b')
assert t.extras['groups'] == ['a'], t.extras['groups']
"""
