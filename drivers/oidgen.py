"""Runs the table generator on registries and records its rows.  usage: oidgen.py REPO SCRIPT TRACE
script lines: gen OPTIONS(s,b,sb,-) name=hexoctets ...   |   bundled OPTIONS"""
import json, os, re, shutil, subprocess, sys, tempfile
repo, script, trace = sys.argv[1:4]
d = tempfile.mkdtemp(prefix='gen-', dir=os.path.dirname(os.path.abspath(trace)))
TEXT = re.compile(r'\{ *"([0-9.]*)", *"([^"]*)" *\},$')
OCTETS = re.compile(r'\{ *\{ *((?:0x[0-9a-fA-F]{1,2},?)*) *\}, *(\d+), *"([^"]*)" *\},$')
codes = lambda s: list(s.encode('latin1'))
os.mkdir(d + '/data')
with open(trace, 'w') as out:
    for line in open(script):
        t = line.split()
        if t[0] == 'session': ev = {'op': 'Session'}
        elif t[0] == 'end': ev = {'op': 'End'}
        else:
            if t[0] == 'bundled': text = open(repo + '/data/oids.txt').read()
            else: text = ''.join('OBJ_%s="%s"\n' % (n, ''.join('\\x%02X' % b for b in bytes.fromhex(o))) for n, o in (e.split('=') for e in t[2:]))
            open(d + '/data/oids.txt', 'w').write(text)
            reg = [{'name': codes(l[4:l.index('=')]), 'oid': list(bytes.fromhex(l[l.index('"') + 1:l.rindex('"')].replace('\\x', '')))} for l in text.split('\n') if l]
            opts = (['--strings'] if 's' in t[1] else []) + (['--bytes'] if 'b' in t[1] else [])
            try: p = subprocess.run([sys.executable, repo + '/scripts/parse_oids.py'] + opts, cwd=d, capture_output=True, text=True, timeout=30)
            except subprocess.TimeoutExpired: out.write(json.dumps({'op': 'Hang'}) + '\n'); break
            texts, octets, odd = [], [], 0
            for l in p.stdout.split('\n'):
                l = l.strip(); a, b = TEXT.match(l), OCTETS.match(l)
                if a: texts.append({'text': codes(a[1]), 'name': codes(a[2])})
                elif b: octets.append({'oid': [int(x, 16) for x in b[1].split(',') if x], 'len': int(b[2]), 'name': codes(b[3])})
                elif l: odd += 1
            ev = {'op': 'Generate', 'exit': p.returncode, 'strings': int('s' in t[1]), 'bytes': int('b' in t[1]), 'reg': reg, 'texts': texts, 'octets': octets, 'odd': odd}
        out.write(json.dumps(ev, separators=(',', ':')) + '\n')
shutil.rmtree(d, ignore_errors=True)
