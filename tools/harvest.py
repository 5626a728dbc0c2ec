#!/usr/bin/env python3
"""Harvest the literals of /repo/src (tests and comments left out) into the dictionary the replay suite draws from."""
import re, sys, os, glob

def strip(src):
    # drop #[cfg(test)] modules (always last in a file here, but handled generally by brace matching)
    while True:
        m = re.search(r'#\[cfg\(test\)\]\s*mod\s+\w+\s*\{', src)
        if not m:
            break
        i = m.end(); depth = 1
        while i < len(src) and depth:
            if src[i] == '{': depth += 1
            elif src[i] == '}': depth -= 1
            i += 1
        src = src[:m.start()] + src[i:]
    src = re.sub(r'(?m)^\s*//.*$', '', src)
    return src

ESC = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'", '0': '\0'}
def unesc(s):
    s = re.sub(r'\\\n\s*', '', s)
    s = re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda m: chr(int(m.group(1).replace('_', ''), 16)), s)
    s = re.sub(r'\\x([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return re.sub(r'\\(.)', lambda m: ESC.get(m.group(1), m.group(1)), s)

def harvest(root):
    strs, ints, floats = set(), set(), set()
    for f in sorted(glob.glob(os.path.join(root, 'src/**/*.rs'), recursive=True)):
        try:
            src = strip(open(f, encoding='utf-8').read())
        except Exception:
            continue
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', src, re.S):
            try: strs.add(unesc(m.group(1)))
            except Exception: pass
        for m in re.finditer(r"'((?:[^'\\]|\\[^u]|\\u\{[0-9a-fA-F]+\}))'", src):
            try: strs.add(unesc(m.group(1)))
            except Exception: pass
        nos = re.sub(r'"((?:[^"\\]|\\.)*)"', '""', src, flags=re.S)
        for m in re.finditer(r'(?<![\w.])0x([0-9a-fA-F_]+)', nos):
            ints.add(int(m.group(1).replace('_', ''), 16))
        for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(\.\d[\d_]*)?([eE][+-]?\d+)?(?:_?(?:f64|u64|i64|usize|u32|i32|u8))?(?![\w])', nos):
            t = (m.group(1) + (m.group(2) or '') + (m.group(3) or '')).replace('_', '')
            if m.group(2) or m.group(3):
                floats.add(float(t))
            else:
                ints.add(int(t))
    return strs, ints, floats

def main(root, out):
    strs, ints, floats = harvest(root)
    with open(out, 'w') as f:
        for s in sorted(strs):
            if 0 < len(s) <= 64:
                f.write('s\t%s\n' % s.encode('utf-8', 'replace').hex())
        for i in sorted(ints):
            if -(2**63) <= i < 2**63: f.write('i\t%d\n' % i)
        for x in sorted(floats):
            f.write('f\t%r\n' % x)
    return len(strs), len(ints), len(floats)

if __name__ == '__main__':
    print(main(sys.argv[1], sys.argv[2]))
