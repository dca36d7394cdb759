"""Reading the Python 2 sources: the few statements Python 3 spells differently are rewritten on the tokens, the rest is the same tree."""
import ast
import io
import os
import tokenize

import frontend


class Unreadable(Exception):
    pass


def py3(text):
    text = text.expandtabs(8)
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    except (tokenize.TokenError, SyntaxError, IndentationError) as e:
        raise Unreadable(str(e))
    ins = {}    # (line, col) -> text inserted before
    rep = {}    # (line, col) -> (length, text)
    start, i = True, 0
    SKIP = (tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT, tokenize.NL, tokenize.COMMENT)
    while i < len(toks):
        t = toks[i]
        if t.type == tokenize.NAME and t.string == 'print' and start:
            depth, j, last = 0, i + 1, t
            while not (depth == 0 and (toks[j].type in (tokenize.NEWLINE, tokenize.COMMENT, tokenize.ENDMARKER) or toks[j].string == ';')):
                if toks[j].string in '([{' and toks[j].type == tokenize.OP:
                    depth += 1
                if toks[j].string in ')]}' and toks[j].type == tokenize.OP:
                    depth -= 1
                last = toks[j]
                j += 1
            rep[t.start] = (5, '_print_(')
            if last is not t:
                nxt = toks[i + 1]
                if nxt.string == '>>':
                    rep[nxt.start] = (2, '')
            ins[last.end] = ins.get(last.end, '') + ')'
        if t.type == tokenize.NAME and t.string == 'except' and start:
            depth, j = 0, i + 1
            while not (depth == 0 and toks[j].string == ':'):
                if toks[j].string in '([{':
                    depth += 1
                if toks[j].string in ')]}':
                    depth -= 1
                if depth == 0 and toks[j].string == ',':
                    rep[toks[j].start] = (1, ' as ')
                j += 1
        if t.type == tokenize.NAME and t.string == 'raise' and start:
            depth, j, commas = 0, i + 1, []
            while not (depth == 0 and (toks[j].type in (tokenize.NEWLINE, tokenize.COMMENT, tokenize.ENDMARKER) or toks[j].string == ';')):
                if toks[j].string in '([{' and toks[j].type == tokenize.OP:
                    depth += 1
                if toks[j].string in ')]}' and toks[j].type == tokenize.OP:
                    depth -= 1
                if depth == 0 and toks[j].string == ',':
                    commas.append(toks[j])
                last = toks[j]
                j += 1
            if commas:
                rep[commas[0].start] = (1, '(')
                ins[last.end] = ins.get(last.end, '') + ')'
        if t.type == tokenize.OP and t.string == '<>':
            rep[t.start] = (2, '!=')
        if t.type == tokenize.NUMBER and t.string[-1] in 'lL':
            rep[t.start] = (len(t.string), t.string[:-1])
        if t.type in SKIP or t.string in (';', ':'):
            start = True
        else:
            start = False
        i += 1
    out = []
    for ln, line in enumerate(text.splitlines(True), 1):
        marks = sorted(set([c for (l, c) in ins if l == ln] + [c for (l, c) in rep if l == ln]), reverse=True)
        for c in marks:
            if (ln, c) in rep:
                n, s = rep[(ln, c)]
                line = line[:c] + s + line[c + n:]
            if (ln, c) in ins:
                line = line[:c] + ins[(ln, c)] + line[c:]
        out.append(line)
    return ''.join(out)


_cache = {}


def load(rel):
    """the tree of a Python source of the repository"""
    path = os.path.join(frontend.REPO, rel)
    if path not in _cache:
        with open(path, encoding='utf-8') as f:
            text = f.read()
        try:
            _cache[path] = ast.parse(py3(text), rel)
        except SyntaxError as e:
            raise Unreadable('%s: %s' % (rel, e))
    return _cache[path]
