#!/usr/bin/env python3
"""mutate.py list|get: small source mutations of /repo's non-test code.

mutate.py list SEED N [FILE...]  prints N sampled mutants as JSON lines
mutate.py apply REPO JSON        applies one
"""
import json, random, re, sys, os

FILES = """src/tree.rs src/tree/generic.rs src/tree/optimistic.rs src/tree/index.rs src/tree/split/propagation.rs
src/tree/split/propagation_context.rs src/tree/split/root_creation.rs src/tree/split/parent_locking.rs src/tree/split/exit_guard.rs
src/leaf24.rs src/leaf24/cas.rs src/leaf24/freeze.rs src/freeze24.rs src/permuter24.rs src/permuter.rs src/nodeversion.rs src/internode.rs
src/suffix.rs src/key.rs src/ksearch.rs src/ksearch/simd.rs src/ksearch/simd_search.rs src/alloc24.rs src/slot.rs src/value.rs src/leaf_trait.rs src/link.rs""".split()


def blank(t):
    """The text with comments, strings, attributes, trace calls and debug assertions blanked."""
    out = list(t)
    def wipe(a, b):
        for i in range(a, b):
            if out[i] != '\n':
                out[i] = ' '
    for m in re.finditer(r'//[^\n]*|"(?:\\.|[^"\\])*"|b?\'(?:\\.|[^\'\\])\'', t, re.S):
        if m.group()[0] in '/"':
            wipe(*m.span())
    s = ''.join(out)
    def balanced(start, o, c):
        d = 0
        for i in range(start, len(s)):
            if s[i] == o: d += 1
            elif s[i] == c:
                d -= 1
                if d == 0: return i + 1
        return len(s)
    for m in re.finditer(r'#!?\[', s):
        wipe(m.start(), balanced(m.end() - 1, '[', ']'))
    for m in re.finditer(r'(tracing::\w+!|debug_assert\w*!|trace_log!|debug_log!|assert\w*!|unreachable!|panic!)\s*\(', s):
        wipe(m.start(), balanced(m.end() - 1, '(', ')'))
    s = ''.join(out)
    m = re.search(r'#\[cfg\(test\)\]\s*(#\[[^\]]*\]\s*)*mod \w+ \{', t)
    if m:
        wipe(m.start(), len(t))
    # blocks under the tracing feature
    for m in re.finditer(r'#\[cfg\(feature = "tracing"\)\]', t):
        e = t.find('\n', m.end())
        line = t[e + 1:t.find('\n', e + 1)]
        if line.strip().startswith('{'):
            a = t.index('{', e)
            wipe(a, balanced(a, '{', '}'))
        else:
            a = e + 1
            z = min([x for x in (s.find(';', a), s.find('\n', a)) if x >= 0] or [a])
            wipe(a, z + 1)
    return ''.join(out)


SUBS = [
    (r' <= ', [' < ', ' == ']), (r' >= ', [' > ', ' == ']), (r' < (?=[\w(])', [' <= ']), (r' > (?=[\w(])', [' >= ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ 1\b', [' + 0', ' + 2']), (r' - 1\b', [' - 0']), (r' \+ (?=[a-z(])', [' - ']), (r' - (?=[a-z(])', [' + ']),
    (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\bif !', ['if ']), (r'\bif (?=[a-z])(?!let)', ['if !']), (r' \| ', [' & ']), (r' & (?=[\w(!])', [' | ']), (r' \^ ', [' | ']),
    (r' << ', [' >> ']), (r' >> ', [' << ']), (r'&= !', ['|= ']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;', ';']),
    (r'\bNone\b(?= =>|$)', []), (r'Ordering::Less\b', ['Ordering::Greater']), (r'Ordering::Greater\b', ['Ordering::Less']),
    (r'Ordering::(?:Acquire|Release|AcqRel)\b', ['Ordering::Relaxed']), (r'\b(?:READ_ORD|WRITE_ORD|CAS_SUCCESS)\b(?!:)', ['crate::ordering::RELAXED']),
    (r'\.\.=', ['..']), (r'(?<=[\w)])\.\.(?=[\w(])', ['..=']), (r'\b([0-9]|[1-9][0-9])\b(?![.\w])', ['NEXT']),
    (r'wrapping_sub', ['wrapping_add']), (r'saturating_sub', ['wrapping_sub']), (r'return Some\((?=[^)])', []),
    (r'\bLeft\b', ['Right']), (r'\bRight\b', ['Left']),
]


def mutants(repo, files):
    out = []
    for f in files:
        t = open(os.path.join(repo, f)).read()
        s = blank(t)
        for pat, reps in SUBS:
            for m in re.finditer(pat, s):
                for r in reps:
                    new = str(int(m.group(1)) + 1) if r == 'NEXT' else r
                    out.append(dict(file=f, at=m.start(), old=t[m.start():m.end()], new=new, kind='sub'))
        # statements that are a call, up to their semicolon
        for m in re.finditer(r'(?m)^[ \t]+((?:[a-zA-Z_(*&][\w:.*&()<>]*\.|[A-Za-z_]\w*(?:::<?\w+>?)*::)?[a-z_]\w*\()', s):
            line = s[m.start():s.find('\n', m.start())].strip()
            if re.match(r'(let|if|while|match|for|return|pub|fn|unsafe|const|static|use|type|impl|else|loop|move|ref|where|async|mut|dyn|in|as)\b', line):
                continue
            a = m.start(1)
            d, i = 0, a
            while i < len(s):
                c = s[i]
                if c in '([{': d += 1
                elif c in ')]}':
                    d -= 1
                    if d < 0: break
                elif c == ';' and d == 0: break
                i += 1
            if i < len(s) and s[i] == ';' and i - a < 400:
                out.append(dict(file=f, at=a, old=t[a:i + 1], new=';', kind='del'))
        # assignments
        for m in re.finditer(r'(?m)^[ \t]+([*a-z_][\w.*\[\]]*\s*[+\-|&^]?=\s[^;=]+;)', s):
            line = m.group(1)
            if line.startswith('let') or '{' in line: continue
            out.append(dict(file=f, at=m.start(1), old=t[m.start(1):m.end(1)], new=';', kind='del'))
    return out


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        seed, n = int(sys.argv[2]), int(sys.argv[3])
        files = sys.argv[4:] or FILES
        ms = mutants('/repo', files)
        random.Random(seed).shuffle(ms)
        for x in ms[:n] if n else ms:
            t = open('/repo/' + x['file']).read()
            x['line'] = t.count('\n', 0, x['at']) + 1
            print(json.dumps(x))
    else:
        x = json.loads(sys.argv[3])
        p = os.path.join(sys.argv[2], x['file'])
        t = open(p).read()
        assert t[x['at']:x['at'] + len(x['old'])] == x['old']
        open(p, 'w').write(t[:x['at']] + x['new'] + t[x['at'] + len(x['old']):])
