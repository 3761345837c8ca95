"""Integer literals of the crate's non-test code: boundary values for the harness."""
import re, glob, json, sys

def strip_tests(s):
    out, i = [], 0
    for m in re.finditer(r'#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s+\w+\s*\{', s):
        if m.start() < i: continue
        out.append(s[i:m.start()])
        d, j = 1, m.end()
        while j < len(s) and d:
            d += (s[j] == '{') - (s[j] == '}')
            j += 1
        i = j
    out.append(s[i:])
    s = ''.join(out)
    s = re.sub(r'//[^\n]*', '', s)
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    return s

def mine(repo='/repo'):
    lits = {}
    for f in sorted(glob.glob(repo + '/src/*.rs') + glob.glob(repo + '/src/polynomial/*.rs')):
        s = strip_tests(open(f, errors='replace').read())
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:\.([0-9_]*)(?:[eE]([+-]?[0-9]+))?|[eE]([+-]?[0-9]+))?', s):
            t = m.group(1).replace('_', '')
            try:
                v = int(t, 0) if not (t.isdigit()) else int(t)
                e = m.group(3) or m.group(4)
                if e and abs(int(e)) < 30: v = int(v * 10 ** int(e))
            except ValueError: continue
            lits[v] = lits.get(v, 0) + 1
        for m in re.finditer(r'1\w*\s*<<\s*(\d+)', s):
            if int(m.group(1)) < 100: lits[1 << int(m.group(1))] = lits.get(1 << int(m.group(1)), 0) + 1
    return lits

if __name__ == '__main__':
    json.dump({str(k): v for k, v in sorted(mine().items())}, sys.stdout)
