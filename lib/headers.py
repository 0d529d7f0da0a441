"""Headers people use, as programs: preprocessed by clang, read by cparse.py, constants by gcc."""
import os, re, subprocess, json
import cparse
from cgen import strip
from reflect import types, OCTETS
from dbgen import hx
NAMES = '''stdio.h stdlib.h string.h sys/stat.h pthread.h signal.h time.h math.h unistd.h sys/socket.h netinet/in.h termios.h wchar.h setjmp.h ucontext.h
elf.h link.h netdb.h regex.h fts.h dirent.h poll.h sys/time.h complex.h fenv.h sys/resource.h sys/epoll.h inttypes.h locale.h search.h ftw.h glob.h pwd.h grp.h langinfo.h
semaphore.h mqueue.h aio.h spawn.h sched.h utmpx.h sys/mman.h sys/ptrace.h sys/ipc.h sys/shm.h sys/msg.h sys/sem.h sys/uio.h sys/un.h sys/user.h sys/wait.h sys/statvfs.h sys/timex.h
sys/procfs.h sys/inotify.h sys/signalfd.h sys/timerfd.h ifaddrs.h net/if.h net/if_arp.h net/route.h netinet/ip.h netinet/tcp.h netinet/udp.h netinet/icmp6.h netinet/ip6.h arpa/inet.h resolv.h
obstack.h argp.h argz.h envz.h error.h err.h execinfo.h getopt.h iconv.h libintl.h malloc.h mntent.h monetary.h nl_types.h printf.h shadow.h syslog.h tar.h thread_db.h threads.h uchar.h utime.h wordexp.h fcntl.h ctype.h wctype.h dlfcn.h
linux/videodev2.h linux/ethtool.h linux/input.h linux/fuse.h linux/kvm.h linux/bpf.h linux/perf_event.h linux/nl80211.h linux/if_link.h linux/rtnetlink.h linux/netlink.h linux/fb.h linux/loop.h
linux/usb/ch9.h linux/can.h linux/dm-ioctl.h linux/btrfs.h linux/fs.h linux/io_uring.h linux/snd.h sound/asound.h drm/drm.h linux/tcp.h linux/sctp.h linux/cdrom.h linux/hdreg.h linux/pkt_sched.h linux/soundcard.h
linux/nfs4.h linux/quota.h linux/capability.h linux/media.h linux/dvb/frontend.h linux/vhost.h linux/virtio_net.h linux/userfaultfd.h linux/seccomp.h linux/taskstats.h linux/wireless.h linux/joystick.h linux/hiddev.h
zlib.h gmp.h expat.h ffi.h ncurses.h sqlite3.h bzlib.h lzma.h zstd.h z3.h rpc/rpc.h valgrind/valgrind.h
llvm-c/Core.h llvm-c/Target.h llvm-c/Orc.h clang-c/Index.h'''.split()
def preprocessed(env, h):
    if not any(os.path.exists(os.path.join(d, h)) for d in ('/usr/include', '/usr/include/x86_64-linux-gnu', '/opt/llvm/include')): return None
    r = subprocess.run([env['CLANG'], '-E', '-P', '-D__attribute__(x)=', '-D_GNU_SOURCE', '-x', 'c', '-I/opt/llvm/include', '-'], input='#include <stddef.h>\n#include <%s>\n' % h, capture_output=True, text=True, env=dict(os.environ, LD_LIBRARY_PATH=env['CLANGLIB']))
    return r.stdout if r.returncode == 0 else None
def load(env, h):
    """text and program, or None when the header is absent or beyond the reader"""
    t = preprocessed(env, h)
    if t is None: return None
    try: p = cparse.parse(t)
    except cparse.Unsupported: return None
    return (t, p) if p else None
def some(env, R, n):
    l = list(NAMES); R.shuffle(l); out = []
    for h in l:
        if len(out) >= n: break
        x = load(env, h)
        if x: out.append((h,) + x)
    return out
def reflect(t, p, slot=0, name='header.c'):
    return 'reflect %d %s %s %s' % (slot, hx(name.encode()), hx(t.encode()), hx(json.dumps(strip(p), separators=(',', ':')).encode()))

def plain(p):
    """tags whose layout the compiler is asked for: no bit-fields, whatever is nested"""
    tds = {}; tags = {}
    def walk(items):
        for x in items:
            if x['k'] == 'typedef': tds[x['uid']] = x['t']
            if x['k'] in ('struct', 'union', 'enum'):
                if x['def']: tags[x['uid']] = x
                walk(x['m'])
    walk(p)
    memo = {}
    def ok(t):
        k = t[0]
        if k == 't': return ok(tds[t[1]]) if t[1] in tds else False
        if k == 'q': return ok(t[2])
        if k == 'a': return t[1] < 1 << 24 and ok(t[2])
        if k == 'p': return True
        if k == 'i': return t[2] != 'v'
        if k == 'ia': return ok(t[1])
        if k == 'r':
            if t[1] not in memo:
                memo[t[1]] = False
                x = tags.get(t[1]); memo[t[1]] = x is not None and (x['k'] == 'enum' or bool(x['m']) and all(y['k'] != 'field' or y['w'] < 0 and ok(y['t']) for y in x['m']))
            return memo[t[1]]
        return False
    return lambda uid: ok(['r', uid])
def compiler(t, p, slot=0, prefix=[]):
    """gcc's sizes and offsets of the records and enums of a header"""
    ok = plain(p); by = {}
    def at(items, path):
        x = items[path[0] - 1]; return x if len(path) == 1 else at(x['m'], path[1:])
    ts = [x for x in types(p, [], None, []) if at(p, x[0])['k'] != 'typedef' and ok(at(p, x[0])['uid'])]
    if not ts: return None
    src = re.sub(r'\b_Float(32|64|32x|64x)\b', r'clang_Float\1', t) + '\nint printf(const char *, ...);\n' + OCTETS + 'int main(void)\n{\n    printf("[");\n'
    for k, (path, e, offs) in enumerate(ts):
        src += '    printf("%s[%s,"); octets(sizeof(%s)); printf(",[");\n' % (',' if k else '', json.dumps(prefix + path), e)
        for j, o in enumerate(offs): src += '    printf("%s"); octets(%s);\n' % (',' if j else '', o)
        src += '    printf("]]");\n'
    return 'compiler %d %s' % (slot, hx((src + '    printf("]");\n    return 0;\n}\n').encode()))
