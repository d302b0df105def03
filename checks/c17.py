"""Printable names: an identifier or NameError, character by character."""
from symx.harness import scenario
from paramz.core import nameable
from paramz import Param, Parameterized

TEXT = {' ': '_', '.': '_', '-': '_m_', '+': '_p_', '!': '_I_', '*': '_x_', '/': '_l_', '@': '_at_', '(': '_of_', ')': ''}
LETTERS = [(65, 90), (97, 122), (95, 95)]
DIGITS = [(48, 57)]


def within(c, ranges):
    r = False
    for a, b in ranges:
        ok = (c >= a) & (c <= b) if a != b else (c == a)
        r = ok if r is False else r | ok
    return r


def expansion(codes):
    """codes of the expected text; decides which character is which"""
    out, i = [], 0
    while i < len(codes):
        c = codes[i]
        if c == 42 and i + 1 < len(codes) and codes[i + 1] == 42:
            out += [ord(x) for x in '_xx_']
            i += 2
            continue
        for k, t in TEXT.items():
            if c == ord(k):
                out += [ord(x) for x in t]
                break
        else:
            out.append(c)
        i += 1
    return out


def identifier(codes):
    if not codes:
        return False
    r = within(codes[0], LETTERS)
    for c in codes[1:]:
        r = r & within(c, LETTERS + DIGITS)
    return bool(r)


def convert(s):
    try:
        return nameable.adjust_name_for_printing(s)
    except NameError:
        return None


@scenario('convert', bounds='all names of up to N arbitrary characters (any code point but surrogates and one private-use block)',
          quick=dict(N=3), thorough=dict(N=4), max_paths=(20000, 200000))
def conv(H, N):
    n = H.choice('length', N + 1)
    s = H.text('c', n)
    codes = H.codes(s)
    r = convert(s)
    want = expansion(codes)
    ok = identifier(want)
    if r is None:
        H.check(not ok, 'NameError only if the text is no identifier')
    else:
        got = H.codes(r)
        H.check(identifier(got), 'the result is an identifier of letters, digits and underscores that does not start with a digit')
        H.check(ok, 'NameError if the text is no identifier')
        H.check(len(got) == len(want), 'each special character is replaced by its own text')
        H.eq(got, want, 'each special character is replaced by its own text and others stay in place')
        if identifier(codes):
            H.check(len(got) == len(codes), 'identifiers come back unchanged')
            H.eq(got, codes, 'identifiers come back unchanged')
    H.observe('accepted', 1 if r is not None else 0)


@scenario('twice', bounds='all names of up to N characters: converting the result again changes nothing', quick=dict(N=3), thorough=dict(N=4), max_paths=(20000, 200000))
def twice(H, N):
    s = H.text('c', H.choice('length', N + 1))
    r = convert(s)
    if r is None:
        return
    q = convert(r)
    H.check(q is not None, 'the result is a printable name')
    if q is not None:
        H.check(len(q) == len(r), 'converting twice is the same as converting once')
        H.eq(H.codes(q), H.codes(r), 'converting twice is the same as converting once')


@scenario('inside', bounds='names made of a fixed beginning, up to N arbitrary characters and a fixed end, among them runs of special characters',
          quick=dict(N=2, frames=[['ab', 'cd'], ['a', '\n'], ['x*', '*y'], ['a**', '**(b']]), thorough=dict(N=3, frames=[['ab', 'cd'], ['a', '\n'], ['x*', '*y'], ['a**', '**(b'], ['_', '_'], ['A9)', ' -.'], ['+', '/@!']]), max_paths=(20000, 200000))
def inside(H, N, frames):
    a, b = H.pick('frame', frames)
    s = a + H.text('c', H.choice('length', N + 1)) + b
    want = expansion(H.codes(s))
    r = convert(s)
    ok = identifier(want)
    H.check(ok == (r is not None), 'NameError exactly if the text is no identifier')
    if r is not None:
        H.check(len(r) == len(want), 'each special character is replaced by its own text')
        H.eq(H.codes(r), want, 'each special character is replaced by its own text and others stay in place')


@scenario('used', bounds='names of up to N arbitrary characters as names of a parameter and its node: the hierarchy name consists of the printable names, the attribute is the printable name',
          quick=dict(N=2), thorough=dict(N=3), max_paths=(20000, 200000))
def used(H, N):
    s = 'q' + H.text('c', H.choice('length', N + 1))
    r = convert(s)
    p = Param(s, 1.)
    if r is None:
        H.raises(NameError, lambda: p.hierarchy_name(), 'no printable name')
        return
    H.eq(H.codes(p.hierarchy_name()), H.codes(r), 'the hierarchy name is the printable name')
    m = Parameterized('m x')
    p.__dict__['_parent_'] = m
    H.eq(H.codes(p.hierarchy_name()), H.codes('m_x.' + r), 'the hierarchy name consists of the printable names')


@scenario('nothing', bounds='None and the empty name')
def nothing(H):
    H.check(nameable.adjust_name_for_printing(None) == '', 'no name is the empty text')
    H.raises(NameError, lambda: nameable.adjust_name_for_printing(''), 'the empty name')
