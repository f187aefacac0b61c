#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes to the library's sources, one at a time, each judged by
the quick checks of the properties anchored in that file.  Survivors are listed for inspection: they are
equivalent, outside every property (see DESIGN.md), or show a hole in a check.

usage: mutate.py OUT.jsonl [-n PER_FILE] [-s SEED] [-j N] [FILE-SUBSTRING...]
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, glob, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('include/sblist.h', 'C01 C02'), ('src/sblist/', 'C01 C02 C08'), ('sorted', 'C02'), ('bsearch', 'C02'), ('sblist_sort', 'C02'), ('tglist.h', 'C03'), ('tgilist.h', 'C03'),
 ('include/bmap.h', 'C04 C08 C09'), ('include/hbmap.h', 'C05 C08 C09'), ('tlist/', 'C06 C08 C09'), ('hashlist/', 'C07 C08 C09'), ('ssalloc', 'C10'), ('guard_alloc', 'C11'),
 ('stringptr/', 'C12 C13 C14 C19 C08 C09'), ('stringptrlist/', 'C12 C32 C14 C08 C09'), ('include/stringptr', 'C12 C13 C32'), ('include/stringlist.h', 'C32'), ('include/sptrlist.h', 'C32'), ('stdio-repl', 'C35'), ('strswitch', 'C25'), ('kvlist', 'C32'),
 ('fileparser/', 'C15 C08 C09'), ('iniparser/', 'C16'), ('filelib/normal', 'C17'), ('filelib/getpathdiff', 'C17'), ('filelib/getfile', 'C18'), ('filelib/mk', 'C28'), ('filelib/ulz_mk', 'C28'),
 ('filelist/', 'C29 C08 C09'), ('format/', 'C19'), ('crc32', 'C23'), ('md5', 'C22'), ('sha512', 'C22'), ('rc4', 'C23'), ('base64', 'C21'), ('hex', 'C21'), ('conv_cypher', 'C28'),
 ('ipv4', 'C24'), ('optparser', 'C26'), ('proclib/process', 'C27'), ('proclib/daemon', 'C34'), ('timelib/', 'C30'), ('logger/', 'C31'), ('bitarray', 'C33'), ('endianness', 'C33'),
 ('strlib/strdup_n', 'C13'), ('strlib/num', 'C20 C19'), ('strlib/int', 'C20'), ('strlib/uint', 'C20'), ('strlib/itoa', 'C20'), ('strlib/utoa', 'C20'), ('strlib/strtoint', 'C20'),
 ('strlib/is', 'C25 C24'), ('strlib/make', 'C25'), ('strlib/str', 'C25'), ('strlib/find', 'C25'), ('strlib/contains', 'C25')]
def props(f):
    r = []
    for k, ps in MAP:
        if k in f: r += [p for p in ps.split() if p not in r]
    return r

def mutants(src):
    """(line number, new line, operator)"""
    out = []; off = 0; cm = False
    lines = src.split('\n')
    for i, l in enumerate(lines):
        if re.match(r'\s*#\s*ifdef\s+\w*TEST', l): break
        if re.match(r'\s*#', l) and not re.match(r'\s*#\s*define', l): continue
        s = l
        if '/*' in s and '*/' not in s: cm = True
        if cm:
            if '*/' in s: cm = False
            continue
        code = re.sub(r'//.*|/\*.*?\*/', lambda m: ' ' * len(m.group(0)), s)
        mask = re.sub(r'"(\\.|[^"\\])*"', lambda m: '\0' * len(m.group(0)), code)
        def sub(m, new, op): out.append((i, s[:m.start()] + new + s[m.end():], op))
        for a, bs in [(r'(?<![<>=!+\-*/&|^-])<(?![<=])', ['<=', '!=']), (r'<=', ['<', '==']), (r'(?<![>\-])>(?![>=])', ['>=', '!=']), (r'(?<!>)>=', ['>', '==']), (r'==', ['!=']), (r'!=', ['==']),
                      (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<![+\w)\]] )\+\+|\+\+', ['--']), (r'--', ['++']), (r'(?<!\+)\+(?![+=])', ['-']), (r'(?<![\-(,=?:])(?<=[\w)\]] )-(?![\-=>])', ['+']),
                      (r'\+=', ['-=']), (r'-=', ['+=']), (r'<<', ['>>']), (r'>>', ['<<']), (r'(?<!&)&(?=\s)(?!&)', ['|']), (r'(?<=\s)\|(?!\|)', ['&']), (r'%', ['/']), (r'!(?=[\w(*])', ['', '!!'][:1]),
                      (r'\bsize_t\b', ['int', 'unsigned short', 'unsigned char']), (r'\bunsigned char\b', ['char']), (r'\buint64_t\b', ['uint32_t', 'int64_t']), (r'\buint32_t\b', ['uint16_t', 'int32_t']),
                      (r'\bunsigned\b(?! (char|long|int|short))', ['int']), (r'\blong long\b', ['int']), (r'\blong\b(?! long)', ['int']), (r'\bssize_t\b', ['int', 'short']), (r'\bbreak\b', ['continue']), (r'\bcontinue\b', ['break'])]:
            for m in re.finditer(a, mask):
                for b in bs: sub(m, b, a + '->' + b)
        for m in re.finditer(r"(?<![\w.'])(0x[0-9a-fA-F]+|\d+)[uUlL]*(?![\w.'])", mask):
            t = m.group(1); v = int(t, 0) if not (t.startswith('0') and len(t) > 1 and not t.startswith('0x')) else int(t, 8)
            for nv in {v + 1, v - 1, 0 if v else 1} - {v}:
                if nv >= 0: sub(m, str(nv), 'const')
        for m in re.finditer(r"'(\\.|[^'\\])'", code): sub(m, "'\\x01'", 'char')
        m = re.match(r'^(\s*)((?:\w+\s*)?if\s*\()(.*)$', mask)
        if re.match(r'^\s*(?!return|static|const|unsigned|int|size_t|char|struct|for|while|if|else|case|goto|break|continue|typedef|extern|void|uint|long|stringptr|ssize_t)[\w*(].*;\s*$', mask) and '\\' not in mask[-2:]:
            out.append((i, re.match(r'\s*', s).group(0) + ';', 'delete'))
        m = re.search(r'\bif\s*\(', mask)
        if m:
            d = 0
            for k in range(m.end() - 1, len(mask)):
                d += (mask[k] == '(') - (mask[k] == ')')
                if d == 0:
                    out.append((i, s[:m.end()] + '0 && (' + s[m.end():k] + ')' + s[k:], 'if0')); out.append((i, s[:m.end()] + '1 || (' + s[m.end():k] + ')' + s[k:], 'if1')); break
        m = re.search(r'\breturn\b\s*([^;]+);', mask)
        if m:
            e = s[m.start(1):m.end(1)]
            for x in ('0', '1', '-1', '!(%s)' % e):
                if x != e: out.append((i, s[:m.start(1)] + x + s[m.end(1):], 'return'))
    return out

def sh(cmd, t, env=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=t, errors='replace', env=env); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, 'timeout'

def obj(repo, f):
    if f.endswith('.h') or f.startswith('include/'): return None
    rc, o = sh(['gcc', '-std=c99', '-Os', '-w', '-c', '-o', '/dev/stdout', '-S', '-I' + repo + '/include', repo + '/' + f], 60)
    return (rc, re.sub(r'\t\.file.*|\.ident.*', '', o))

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('out'); ap.add_argument('-n', type=int, default=6); ap.add_argument('-s', type=int, default=1); ap.add_argument('-j', type=int, default=2); ap.add_argument('what', nargs='*')
    a = ap.parse_intermixed_args(); r = random.Random(a.s)
    files = sorted(glob.glob('/repo/src/*/*.c') + glob.glob('/repo/include/*.h') + glob.glob('/repo/include/*.c'))
    jobs = []
    for f in files:
        f = f[6:]
        if a.what and not any(w in f for w in a.what): continue
        ps = props(f)
        if not ps: continue
        src = open('/repo/' + f, errors='surrogateescape').read(); ms = mutants(src); r.shuffle(ms)
        n = max(2, min(a.n, len(src.split('\n')) * a.n // 40 + 2)) if a.n < 100 else 10**6
        jobs += [(f, ps, m) for m in ms[:n]]
    done = set()
    if os.path.exists(a.out): done = {(d['file'], d['line'], d['new']) for d in map(json.loads, open(a.out))}
    r.shuffle(jobs); jobs = [j for j in jobs if (j[0], j[2][0] + 1, j[2][1]) not in done]
    cache = '/tmp/mccache'; os.makedirs(cache, exist_ok=True)
    slots = []
    for k in range(a.j):
        d = tempfile.mkdtemp(prefix='mut.', dir='/tmp'); os.chmod(d, 0o755); sh(['cp', '-a', '/repo', d + '/repo'], 60); slots.append(d)
    free = list(slots); tot = len(jobs); cnt = [0]
    print(tot, 'mutants', flush=True)
    def one(j):
        f, ps, (ln, new, op) = j; d = free.pop(); repo = d + '/repo'; p = repo + '/' + f
        try:
            orig = open(p, errors='surrogateescape').read(); o0 = obj(repo, f)
            L = orig.split('\n'); old = L[ln]; L[ln] = new; open(p, 'w', errors='surrogateescape').write('\n'.join(L))
            try:
                o1 = obj(repo, f)
                if o1 and (o1[0] or o1 == o0): return
                res = 'SURVIVED'; by = ''
                for pr in ps:
                    rc, out = sh(['nice', V + '/check', pr, 'quick'], 600, dict(os.environ, ULZ_REPO=repo, VERIF_DEV=cache, VERIF_SEED='1', VERIF_TIER='quick'))
                    v = re.search(r'^VIOLATION property=(\S+)', out, re.M)
                    if rc == 1 and v: res = 'killed'; by = pr; break
                    if 'does not build' in out or 'does not compile' in out: res = 'nobuild'; break
                    if rc: res = 'noanswer'; by = pr + ' rc=%d ' % rc + out[-300:]; break
                cnt[0] += 1
                with open(a.out, 'a') as fo: fo.write(json.dumps(dict(file=f, line=ln + 1, op=op, old=old, new=new, res=res, by=by, props=ps)) + '\n')
                if res not in ('killed', 'nobuild'): print('%d/%d %s %s:%d [%s]\n   - %s\n   + %s' % (cnt[0], tot, res, f, ln + 1, ' '.join(ps), old.strip(), new.strip()), by, flush=True)
            finally:
                open(p, 'w', errors='surrogateescape').write(orig)
        finally: free.append(d)
    with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, jobs))
    for d in slots: shutil.rmtree(d, ignore_errors=True)
main()
