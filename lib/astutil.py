"""Syntax-tree helpers."""


def walk(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if 'k' in y:
                yield y
            st.extend(reversed([v for k, v in y.items() if isinstance(v, (dict, list)) and k != 'f' or k == 'f' and isinstance(v, dict) and 'k' in v]))
        elif isinstance(y, list):
            st.extend(reversed(y))


def calls(x):
    for e in walk(x):
        if e['k'] in ('call', 'ctor') and e.get('f'):
            yield e
