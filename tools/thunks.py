"""Mechanical extraction of the async code: copies a crate's sources, turning each future into a thunk.

Kani encodes coroutines as unions -- nested ones are out of CBMC's reach -- so the async code is verified after being rewritten,
token by token (line numbers are kept):
   `async fn f(args) -> R { body }`  =>  `fn f(args) -> impl now_future::Future<Output=R> { now_future::lazy(move || -> R { body }) }`
   `async { body }`                  =>  `now_future::lazy(|| { body })`             -- the same for `async move`
   `future.await`                    =>  `future.now()`
   `std::future`                     =>  `now_future` (shim/now-future)
What is dropped: waiting. Futures still do nothing until awaited for, but run to completion then -- as when nothing they await for has
to wait. All other tokens are the ones of the original sources. The edition is set to 2024, so return types capture what they must."""

import os, re, shutil

TOKEN = re.compile(r'''
    (?P<space>\s+ | //[^\n]*)
  | (?P<string> b?c?r(?P<hashes>\#*)".*?"(?P=hashes) | [bc]?"(?:\\.|[^"\\])*")
  | (?P<char> b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\\n])')
  | (?P<lifetime> '[A-Za-z_]\w*)
  | (?P<ident> r\#\w+ | [^\W\d]\w*)
  | (?P<number> \d(?:\w|\.(?=\d))*)
  | (?P<punct> ::|->|=>|.)
''', re.X | re.S)


def tokens(text):
    """(kind, text, start, end) for each token but spaces & comments"""
    out, i = [], 0
    while i < len(text):
        if text.startswith('/*', i):
            depth, j = 1, i + 2
            while depth:
                nxt = re.compile(r'/\*|\*/').search(text, j)
                if not nxt: raise ValueError('unterminated comment')
                depth += 1 if nxt.group() == '/*' else -1
                j = nxt.end()
            i = j
            continue
        m = TOKEN.match(text, i)
        if m.lastgroup != 'space' and not m.group('space'):
            kind = next(k for k in ('string', 'char', 'lifetime', 'ident', 'number', 'punct') if m.group(k) is not None)
            out.append((kind, m.group(), m.start(), m.end()))
        i = m.end()
    return out


def matching(ts, i):
    """the index of what closes the group `ts[i]` opens"""
    close, depth = {'(': ')', '[': ']', '{': '}'}, 0
    for j in range(i, len(ts)):
        if ts[j][0] == 'punct':
            if ts[j][1] in close: depth += 1
            elif ts[j][1] in close.values():
                depth -= 1
                if depth == 0: return j
    raise ValueError('unbalanced group')


HEAD = ' #[allow(unused_imports)] use ::now_future::Now as _; '


def transform(text):
    ts = tokens(text)
    edits = []      # (start, end, replacement)
    t = lambda i: ts[i][1] if 0 <= i < len(ts) else ''
    for i, (kind, tok, start, end) in enumerate(ts):
        if kind != 'ident': continue
        if tok == 'gen':
            edits.append((start, end, 'r#gen'))
        elif tok == 'await' and t(i - 1) == '.':
            edits.append((start, end, 'now()'))
        elif tok == 'future' and t(i - 1) == '::' and t(i - 2) in ('std', 'core'):
            first = i - 3 if t(i - 3) == '::' else i - 2
            edits.append((ts[first][2], end, '::now_future as future' if t(first - 1) == 'use' and t(i + 1) == ';' else '::now_future'))
        elif tok in ('std', 'core') and t(i - 1) == 'use' and t(i + 1) == '::' and t(i + 2) == '{':
            close, j, moved = matching(ts, i + 2), i + 3, []
            while j < close:
                k = j       # an entry goes from j up to k
                while k < close and t(k) != ',':
                    k = matching(ts, k) + 1 if t(k) == '{' else k + 1
                if t(j) == 'future':
                    last = ts[k][3] if t(k) == ',' else ts[k - 1][3]
                    moved.append(('::now_future as future' if k == j + 1 else '::now_future') + text[ts[j][3]:ts[k - 1][3]].replace('\n', ' '))
                    edits.append((ts[j][2], last, re.sub(r'[^\n]', '', text[ts[j][2]:last])))
                j = k + 1
            if moved:
                semicolon = close + 1
                edits.append((ts[semicolon][3], ts[semicolon][3], ''.join(f' use {x};' for x in moved)))
        elif tok == 'async':
            if t(i + 1) == 'move' and t(i + 2) == '{' or t(i + 1) == '{':
                body = i + 2 if t(i + 1) == 'move' else i + 1
                close = matching(ts, body)
                edits.append((start, ts[body][3], '::now_future::lazy(' + ('move ' if body == i + 2 else '') + '|| {' + HEAD))
                edits.append((ts[close][2], ts[close][3], '})'))
            elif t(i + 1) in ('fn', 'unsafe', 'extern'):
                j = i + 1
                while t(j) != '(' : j += 1       # generics have no parenthesis before the arguments but in `Fn(..)` bounds -- see below
                # skip the generics, counting angle brackets
                j = i + 1
                while t(j) != 'fn': j += 1
                j += 2
                if t(j) == '<':
                    depth = 0
                    while True:
                        if t(j) == '<': depth += 1
                        elif t(j) == '>': depth -= 1
                        if depth == 0: break
                        j += 1
                    j += 1
                if t(j) != '(': raise ValueError('async function expected')
                close = matching(ts, j)
                j, output = close + 1, '()'
                k = j
                while t(k) not in ('{', ';', 'where'): k = matching(ts, k) + 1 if t(k) in ('(', '[') else k + 1
                where = k
                while t(k) not in ('{', ';'): k = matching(ts, k) + 1 if t(k) in ('(', '[') else k + 1
                if t(j) == '->':
                    output = text[ts[j][3]:ts[where - 1][3]].strip()
                    edits.append((ts[j][2], ts[j][3], '-> impl ::now_future::Future<Output='))
                    edits.append((ts[where - 1][3], ts[where - 1][3], '>'))
                else:
                    edits.append((ts[close][3], ts[close][3], ' -> impl ::now_future::Future<Output=()>'))
                edits.append((start, ts[i + 1][2], ''))
                if t(k) == '{':
                    end_of_body = matching(ts, k)
                    edits.append((ts[k][2], ts[k][3], '{ ::now_future::lazy(move || -> ' + ' '.join(output.split()) + ' {' + HEAD))
                    edits.append((ts[end_of_body][2], ts[end_of_body][3], '}) }'))
            else:
                raise ValueError('async closures are not supported')
    out, at = [], 0
    for start, end, new in sorted(edits, key=lambda e: (e[0], e[1])):
        if start < at: continue       # inside of something already moved
        out += [text[at:start], new]
        at = end
    return ''.join(out) + text[at:]


def extract(source, target):
    """writes the extraction of the crate in `source` -- returns what was rewritten, file by file"""
    shutil.rmtree(target, ignore_errors=True)
    rewritten = {}
    for root, _dirs, files in os.walk(os.path.join(source, 'src')):
        for f in files:
            p = os.path.join(root, f)
            q = os.path.join(target, os.path.relpath(p, source))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            text = open(p, encoding='utf-8').read()
            new = transform(text) if f.endswith('.rs') else text
            if new != text: rewritten[os.path.relpath(p, source)] = sum(a != b for a, b in zip(text.splitlines(), new.splitlines()))
            open(q, 'w', encoding='utf-8').write(new)
    if os.path.exists(os.path.join(source, 'README.md')): shutil.copy(os.path.join(source, 'README.md'), target)
    toml = open(os.path.join(source, 'Cargo.toml'), encoding='utf-8').read()
    toml = re.sub(r'(?m)^edition(\s*)=.*$', 'edition = "2024"', toml)
    toml = re.sub(r'(?m)^\[workspace\]\s*$', '', toml)
    if '[dependencies]' not in toml: toml += '\n[dependencies]\n'
    toml = re.sub(r'(?m)^\[dependencies\]\s*$', '[dependencies]\nnow-future = { path = "%s" }' % os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'shim/now-future'), toml)
    open(os.path.join(target, 'Cargo.toml'), 'w').write(toml)
    return rewritten


if __name__ == '__main__':
    import sys
    print(extract(*sys.argv[1:]))
