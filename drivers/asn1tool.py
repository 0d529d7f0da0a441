"""Runs asn1tool on files and records what it shows.  usage: asn1tool.py TOOL SCRIPT TRACE"""
import json, os, re, subprocess, sys, tempfile, shutil
tool, script, trace = sys.argv[1:4]
d = tempfile.mkdtemp(prefix='asn1-', dir=os.path.dirname(os.path.abspath(trace)))
ROW = re.compile(rb'\[ *(\d+);(\d+) *\]( *)\|-([* ])(.*)$', re.S)
env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1:symbolize=0')
def value(name, rest):
    rest = rest.strip(b' ')
    m = re.match(rb'\{([0-9a-f,]*)\}$', rest)
    if m: return {'kind': 'hex', 'val': [int(x, 16) for x in m.group(1).split(b',') if x]}
    if len(rest) >= 2 and rest[:1] == b'"' and rest[-1:] == b'"': return {'kind': 'text', 'val': list(rest[1:-1])}
    m = re.match(rb'(.*?)\(([0-9.]*)\)$', rest, re.S)
    if m: return {'kind': 'oid', 'val': list(m.group(2))}
    return {'kind': 'none', 'val': []}
def run(path):
    try:
        p = subprocess.run([tool, '--dump', path], capture_output=True, timeout=20, env=env)
    except subprocess.TimeoutExpired:
        return None, b'', b''
    return p.returncode, p.stdout, p.stderr
with open(trace, 'w') as out:
    for line in open(script):
        t = line.split()
        if t[0] == 'session': ev = {'op': 'Session'}
        elif t[0] == 'end': ev = {'op': 'End'}
        elif t[0] == 'missing':
            rc, o, e = run(d + ('/none' if t[1] == 'none' else ''))
            ev = {'op': 'Missing', 'exit': -1 if rc is None else rc, 'errors': len(e)}
        else:
            data = bytes.fromhex('' if t[1] == '-' else t[1])
            p = os.path.join(d, 'f')
            open(p, 'wb').write(data)
            rc, o, e = run(p)
            if rc is None: ev = {'op': 'Hang'}
            elif rc < 0 or rc == 77: ev = {'op': 'Crash', 'rc': rc, 'stderr': e[-300:].decode('latin1')}
            else:
                rows, other = [], 0
                ls = o.split(b'\n')
                if ls and ls[-1] == b'': ls.pop()
                for r in ls:
                    m = ROW.match(r)
                    if not m: other += 1; continue
                    m2 = re.match(rb'(\S+) *(.*)$', m.group(5), re.S)
                    name, rest = (m2.group(1), m2.group(2)) if m2 else (b'', b'')
                    off, ln = int(m.group(1)), int(m.group(2))
                    rows.append({'off': min(off, 2**31 - 1), 'len': min(ln, 2**31 - 1), 'depth': len(m.group(3)) // 2 if len(m.group(3)) % 2 == 0 else -1,
                                 'cons': 1 if m.group(4) == b'*' else 0, 'name': name.decode('latin1'), 'value': value(name, rest)})
                ev = {'op': 'Dump', 'file': list(data), 'exit': rc, 'errors': len(e), 'other': other, 'rows': rows}
        out.write(json.dumps(ev, separators=(',', ':')) + '\n')
        if ev['op'] in ('Crash', 'Hang'): break
shutil.rmtree(d, ignore_errors=True)
