"""P21: printable names."""
import keyword, re
from ..core import check, Violation

SIZES = {'quick': (4, 3000), 'thorough': (8, 80000)}
RULE = ('arbitrary strings: free text, text over the documented operator characters, identifiers, and identifiers with operators inside or in front; '
        'non-trivial: the string contains a character which is not allowed in an identifier')
ASSUMPTIONS = []

OPS = ' .-+!*/@()'


def strategy(tier):
    from hypothesis import strategies as st
    ident = st.from_regex(r'\A[a-zA-Z_][a-zA-Z0-9_]{0,8}\Z')
    withops = st.tuples(st.from_regex(r'\A[a-zA-Z_]\Z'), st.text(alphabet='ab1_' + OPS, max_size=12)).map(lambda t: t[0] + t[1])
    anyops = st.text(alphabet='aB1_' + OPS, max_size=8)
    return st.one_of(anyops, st.text(max_size=10), st.text(alphabet='aZ09_ .-+!*/@()\n\t\r\x0b,;:#$%&=<>?[]{}|~^\'"\\`\u00e9\u00b2\u0661\u2028', max_size=10), ident, withops,
                     st.sampled_from(['class', 'x\n', 'x\x00', '1a', '', ' a', '__', 'a**b', '***', 'f(x)', ')', '()', '@a', '\u00b2', 'a\u0661', '\u0661a', '\uff41']),
                     ident.flatmap(lambda s: st.sampled_from(['\n', '\t', '\r', '\u00b2', '\u0661', '$', '\u2028', ' ', '\x00']).map(lambda c: s + c)))


def adjust(s):
    from paramz.core.nameable import adjust_name_for_printing
    try:
        r = adjust_name_for_printing(s)
    except NameError:
        return None
    check(isinstance(r, str), 'adjusting {!r} gives {!r}', s, r)
    return r


def run(case, rec):
    s = case
    r = adjust(s)
    if any(not (c.isalnum() or c == '_') for c in s):
        rec.mark('other characters')
    ascii_ident = re.match(r'[a-zA-Z_][a-zA-Z0-9_]*\Z', s) is not None
    if r is None:
        rec.label('refused')
        check(not ascii_ident, 'the identifier {!r} is refused', s)
        bare = s.replace(')', '')
        check(not (bare and not re.match(r'[0-9]', bare) and all(re.match(r'[a-zA-Z0-9_]\Z', c) or c in OPS for c in s)),
              '{!r} is refused although it is a name with documented characters only', s)
        return
    rec.label('accepted')
    check(r.isidentifier(), '{!r} is adjusted to {!r}, which is not an identifier', s, r)
    if s.isidentifier():
        check(r == s, 'the identifier {!r} is changed to {!r}', s, r)
    check(adjust(r) == r, 'adjusting {!r} twice gives {!r}, once {!r}', s, adjust(r), r)
    if s.isidentifier() is False:
        rec.label('converted')
