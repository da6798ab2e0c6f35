#!/usr/bin/env python3
"""mutate.py FILE[:FUNC-regex] N SEED PROP...: N random small edits of one source file in a scratch copy of /repo, each run
against the checks until one reports a violation. Prints survivors with their diff. Strengthens the checks; decides nothing."""
import os, random, re, shutil, subprocess, sys
f, n, seed, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
d = '/tmp/mut-%d' % os.getpid()
rnd = random.Random(seed)
src = open('/repo/' + f).read().split('\n')
SW = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), (' < ', ' <= '), (' > ', ' >= '), ('+ 1', '+ 0'), ('- 1', '- 0'), ('+ 1', '+ 2'), ('true', 'false'), ('false', 'true'), ('++', '--'), ('+=', '-='), ('return 1', 'return 0'), ('return 0', 'return 1'), (' 0', ' 1'), (' 1', ' 0'), ('NULL', '(void*)8'), ('sizeof', '1+0*sizeof'), ('break;', ''), ('continue;', ''), ('SQLITE_DONE', 'SQLITE_OK'), ('SQLITE_OK', 'SQLITE_DONE'), ('SQLITE_ROW', 'SQLITE_DONE'), ('* 2', '* 1')]
SW2 = [('old_value', 'new_value'), ('new_value', 'old_value'), ('dest', 'src'), ('src', 'dest'), ('insert', 'update'), ('update', 'insert'), ('CEE_DP_DEL_RC', 'CEE_DP_DEL'), ('CEE_DP_DEL', 'CEE_DP_NOOP'), ('CEE_DP_NOOP', 'CEE_DP_DEL_RC'), ('key', 'val'), ('val', 'key'), ('strcmp', 'strcasecmp'), ('memcpy', 'strncpy'), ('int64', 'int'), ('i64', 'u64'), ('used', 'unused'), ('has_value', 'is_null'), ('is_null', 'has_value'), ('kind', 'file'), ('size_t', 'unsigned char'), ('uintptr_t', 'unsigned char'), ('int', 'short'), ('int64_t', 'int'), ('unsigned', 'unsigned char'), ('size_t', 'unsigned short'), ('uintptr_t', 'unsigned short'), ('static_', 'x')]  # whole words
muts, cm = [], False
for i, l in enumerate(src):
    s = l.strip()
    if cm or s.startswith('/*'):
        cm = '*/' not in s
        continue
    if s == 'cee_segfault();' or re.match(r'if ?\(NULL == \w+\)\s*$', s): continue
    if not s or s.startswith(('#', '//', 'struct', 'extern', 'static', 'typedef', 'union', 'enum')): continue
    for a, b in SW2:
        if re.match(r'.*\)\s*\{$', l) and l[0] != ' ': break
        for m in re.finditer(r'(?<![\w"%@])' + re.escape(a) + r'(?!\w)', l):
            if '"' in l and l[:m.start()].count('"') % 2: continue
            muts.append((i, l[:m.start()] + b + l[m.end():]))
    m = re.match(r'^(\s*for ?\(.*; ?[\w.>\-]+ < [^;]+)(;.*)$', l)
    if m: muts += [(i, m.group(1) + ' && %s < %d' % (re.search(r'; ?([\w.>\-]+) <', l).group(1), k) + m.group(2)) for k in (3, 12, 40)]
    m = re.match(r'^(.*) \? ([^:?]+) : ([^;:?]+)([;,)].*)$', l)
    if m and '"' not in l: muts.append((i, '%s ? %s : %s%s' % (m.group(1), m.group(3), m.group(2), m.group(4))))
    for a, b in SW:
        for m in re.finditer(re.escape(a), l):
            if '"' in l and l[:m.start()].count('"') % 2: continue
            muts.append((i, l[:m.start()] + b + l[m.end():]))
    if re.match(r'^[a-zA-Z_>.\-\[\]()*]+[^{}]*;$', s) and l.startswith(' ') and not re.match(r'^(return|break|continue|goto|int|char|size_t|uint|void|const|u?intptr|sqlite3|double|bool|FILE|case|default)', s): muts.append((i, '  ;'))
    m = re.match(r'^(\s*(?:\} ?else )?if ?)\((.*)\)(\s*\{?.*)$', l)
    if m and l.count('(') == l.count(')') and not m.group(3).strip().startswith(('&', '|')): muts += [(i, m.group(1) + '(0 && (' + m.group(2) + '))' + m.group(3)), (i, m.group(1) + '(1 || (' + m.group(2) + '))' + m.group(3))]
rnd.shuffle(muts)
done = killed = 0
os.makedirs('/tmp/simcache', exist_ok=True)
for i, new in muts:
    if done >= n: break
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '_build'))
    t = list(src); t[i] = new
    open(d + '/' + f, 'w').write('\n'.join(t))
    who = None
    for p in props:
        r = subprocess.run(['timeout', '200', 'python3', '/verif/check.py', p] + os.environ.get('MUT_ARGS', '').split(), env=dict(os.environ, SIM_REPO=d, SIM_GEN_ONLY='1', SIM_CACHE='/tmp/simcache'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1: who = p; break
        if r.returncode == 2: who = 'E'; break
        if r.returncode == 124: who = 'T'; break
    if who == 'E': continue
    done += 1
    if who: killed += 1; print('killed %s %s:%d %s' % (who, f, i + 1, new.strip()[:90]), flush=True)
    else: print('SURVIVED %s:%d\n  - %s\n  + %s' % (f, i + 1, src[i].strip(), new.strip()), flush=True)
shutil.rmtree(d, ignore_errors=True)
print('%s: %d of %d killed' % (f, killed, done))
