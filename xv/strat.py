"""Common Hypothesis strategies (pure data only)."""
from hypothesis import strategies as st

LATIN = st.characters(min_codepoint=1, max_codepoint=255)
BMP = st.one_of(st.characters(min_codepoint=1, max_codepoint=0xD7FF), st.characters(min_codepoint=0xE000, max_codepoint=0xFFFD))
ASTRAL = st.characters(min_codepoint=0x10000, max_codepoint=0x10FFFF)
ASCII = st.characters(min_codepoint=32, max_codepoint=126)


def texts(max_size=12, min_size=0, astral=True):
    alts = [st.text(ASCII, min_size=min_size, max_size=max_size),
            st.text(LATIN, min_size=min_size, max_size=max_size),
            st.text(st.one_of(ASCII, BMP), min_size=min_size, max_size=max_size)]
    if astral:
        alts.append(st.text(st.one_of(ASCII, BMP, ASTRAL), min_size=min_size, max_size=max_size))
    return st.one_of(*alts)


def long_texts(astral=True):
    """short pattern repeated: cheap way to reach lengths beyond 255 units."""
    return st.tuples(texts(6, 1, astral), st.integers(30, 90)).map(lambda t: t[0] * t[1])


def any_text(max_size=12, astral=True):
    return st.one_of(texts(max_size, 0, astral), texts(max_size, 0, astral), texts(max_size, 0, astral), long_texts(astral))


finite = st.floats(allow_nan=False, allow_infinity=False)
numbers = st.one_of(
    finite, finite,
    st.integers(-2 ** 31, 2 ** 31).map(float),
    st.integers(-10 ** 7, 10 ** 7).map(lambda i: i / 100.0),
    st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e300, 5e-324, float('inf'), float('-inf')]),
)

u16 = st.integers(0, 0xFFFF)
u32 = st.integers(0, 0xFFFFFFFF)
rk_ints = st.one_of(
    u32.filter(lambda r: (r & 2) or (r & 0x7FF00000) != 0x7FF00000),
    st.integers(-2 ** 29, 2 ** 29 - 1).flatmap(lambda i: st.sampled_from([2, 3]).map(lambda d: ((i & 0x3FFFFFFF) << 2) | d)),
    st.sampled_from([0x80000002, 0x7FFFFFFE, 0x80000003, 0x7FFFFFFF, 0xFFFFFFFE, 0xFFFFFFFF, 2, 3, 6, 7, 0, 1]),
)

ERRS = [0x00, 0x07, 0x0F, 0x17, 0x1D, 0x24, 0x2A]
errs = st.sampled_from(ERRS)
bools = st.booleans()


def positions(profile):
    if profile == 'small':
        return st.integers(0, 6), st.integers(0, 6)
    if profile == 'wide':
        return st.integers(0, 12), st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 254, 255]))
    return st.one_of(st.integers(0, 65535), st.sampled_from([0, 1, 65534, 65535, 16383, 16384, 32767, 32768])), st.integers(0, 2)
