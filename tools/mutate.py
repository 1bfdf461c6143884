#!/usr/bin/env python3
"""Mutation campaign: lists small mutations of the non-test code of /repo/src.
mutate.py list OUT.jsonl            every mutant: {"id","file","line","old","new","rule"}
mutate.py apply OUT.jsonl ID ROOT   applies one to the tree at ROOT
The runner is mutrun.sh. Nothing here is read by a check."""
import json, re, sys, os

SUB = [
    (r' < (?!=)', ' <= '), (r' <= ', ' < '), (r' > (?!=)', ' >= '), (r' >= ', ' > '), (r' < (?!=)', ' > '),
    (r' == ', ' != '), (r' != ', ' == '),
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' % ', ' / '), (r' / ', ' * '),
    (r' << ', ' >> '), (r' >> ', ' << '), (r' \| ', ' & '), (r' & ', ' | '), (r' \^ ', ' | '),
    (r' && ', ' || '), (r' \|\| ', ' && '),
    (r'\+= ', '-= '), (r'-= ', '+= '), (r'(\+=|-=) ', '= '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.is_ok\(\)', '.is_err()'), (r'\.is_err\(\)', '.is_ok()'),
    (r'\.is_pending\(\)', '.is_ready()'), (r'\.is_ready\(\)', '.is_pending()'),
    (r'Round::Up', 'Round::Down'), (r'Round::Down', 'Round::Up'),
    (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'cmp::max', 'cmp::min'), (r'cmp::min', 'cmp::max'),
    (r'Instant::now\(\)', 'Instant::now_js()'), (r'Instant::now_js\(\)', 'Instant::now()'),
    (r'from_millis', 'from_micros'), (r'from_secs\(', 'from_millis('), (r'as_millis\(\)', 'as_micros()'), (r'from_nanos', 'from_micros'),
    (r'checked_add', 'checked_sub'), (r'checked_sub', 'checked_add'), (r'fetch_or', 'fetch_and'),
    (r'\.take\(\)', '.clone()'), (r'\bErr\(\(\)\)', 'Ok(())'), (r'\bNone => (.*)$', None),
    (r'\bif (?!let)(.*) \{$', r'if true || (\1) {'), (r'\bif (?!let)(.*) \{$', r'if false && (\1) {'), (r'\bwhile (?!let)(.*) \{$', r'while false && (\1) {'),
    (r'!(?=[a-z_(])(?<![a-z_]!)', ''),
    (r'\bleft\b', 'right'), (r'\bnext\b', 'prev'), (r'\bprev\b', 'next'), (r'\bparent\b', 'idx'),
    (r'leading_zeros', 'trailing_zeros'), (r'trailing_zeros', 'leading_zeros'), (r'rotate_right', 'rotate_left'),
    (r'as u64', 'as u32 as u64'), (r'as i64', 'as i32 as i64'), (r'as usize', 'as u8 as usize'), (r'as u32', 'as u16 as u32'),
    (r'wrapping_add\(1\)', 'wrapping_add(0)'),
    (r'Poll::Pending', 'Poll::Ready(())'), (r'continue;', 'break;'), (r'break;', 'continue;'),
]
DEL = re.compile(r'^\s*(?!let |use |return|pub |mod |type |const |static |//|#|\}|\)|break|continue)[\w*&(.:].*;\s*$')

def code_lines(path):
    out = []
    skip = False
    depth = 0
    for n, l in enumerate(open(path).read().split('\n'), 1):
        if l.strip().startswith('#[cfg(test)]'):
            break
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use'):
            continue
        if 'assert' in s:
            continue
        out.append((n, l))
    return out

def mutants(root):
    k = 0
    for d, _, fs in sorted(os.walk(os.path.join(root, 'src'))):
        for f in sorted(fs):
            if not f.endswith('.rs'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            for n, l in code_lines(p):
                c = l.split(' // ')[0]
                if re.match(r'\s*(pub(\([a-z]+\))? )?(unsafe |async |const )*(fn|struct|enum|impl|trait|where|mod|type)\b', c) or re.match(r'\s*[A-Z]\w*: ', c):
                    continue
                seen = set()
                for pat, rep in SUB:
                    if rep is None:
                        continue
                    for m in re.finditer(pat, c):
                        new = c[:m.start()] + m.expand(rep) + c[m.end():]
                        if new != c and new not in seen:
                            seen.add(new)
                            yield {'id': k, 'file': rel, 'line': n, 'old': l, 'new': new, 'rule': pat}; k += 1
                for m in re.finditer(r'(?<![\w.])\d[\d_]*(?![\w.])', c):
                    v = int(m.group().replace('_', ''))
                    for w in {v + 1, v - 1 if v > 0 else v + 2, v * 2 if v > 2 else v + 1}:
                        new = c[:m.start()] + str(w) + c[m.end():]
                        if new not in seen:
                            seen.add(new)
                            yield {'id': k, 'file': rel, 'line': n, 'old': l, 'new': new, 'rule': 'literal'}; k += 1
                if DEL.match(c):
                    ind = re.match(r'\s*', c).group()
                    yield {'id': k, 'file': rel, 'line': n, 'old': l, 'new': ind + '// deleted', 'rule': 'delete'}; k += 1

if sys.argv[1] == 'list':
    ms = list(mutants('/repo'))
    with open(sys.argv[2], 'w') as f:
        for m in ms:
            f.write(json.dumps(m) + '\n')
    from collections import Counter
    print(len(ms), Counter(m['file'] for m in ms))
else:
    m = next(m for m in map(json.loads, open(sys.argv[2])) if m['id'] == int(sys.argv[3]))
    p = os.path.join(sys.argv[4], m['file'])
    L = open(p).read().split('\n')
    assert L[m['line'] - 1] == m['old']
    L[m['line'] - 1] = m['new']
    open(p, 'w').write('\n'.join(L))
