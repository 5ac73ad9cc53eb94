"""C34: reading a document reads nothing else, in bounded time and memory, and leaves its source as it was."""
import ctypes
import gc
import io
import os
import re
import resource
import socket
import struct
import subprocess
import sys
import sysconfig
import tempfile
import threading
from pathlib import Path

from ..core import Scenario, Skip
from .. import env, gen, spec
from . import c10, c11

RULE = ('random documents (valid or with faults) that declare internal, external and parameter entities, an external DTD, '
        'inclusions, schema locations and stylesheets, and refer to entities in contents and attributes, read by every '
        'parser from paths and streams; entity expansion bombs read in a child process with limits; downloads from a '
        'loopback server; non-trivial: a document with a reference outside or an entity that was read to its end')
ASSUMPTIONS = ['bounds of the bombs: 1.5 GB of memory, 40 s of processor time; a bounded expansion needs neither',
               'accesses are observed by inotify (files), a listening socket (network) and audit events (Python)']

IN_ACCESS, IN_OPEN, IN_MODIFY, IN_CREATE, IN_DELETE = 1, 0x20, 2, 0x100, 0x200
_LIBC = ctypes.CDLL(None, use_errno=True)
_AUDIT = [None]
_FILE = 'open', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'shutil.rmtree'
_OTHER = 'socket.connect', 'socket.getaddrinfo', 'urllib.Request', 'subprocess.Popen', 'os.system', 'os.exec', 'exec'


def _hook(name, args):
    log = _AUDIT[0]
    if log is not None and (name in _FILE or name in _OTHER[:-1]):
        log.append((name, args))


def prepare():
    c11.prepare()
    gen.COMP = 0
    env.unidb()
    gc.collect()
    gc.freeze()
    sys.addaudithook(_hook)


class Watch(object):
    """Observes what is accessed while documents of a directory are read."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.fd = _LIBC.inotify_init1(os.O_NONBLOCK)
        if self.fd < 0 or _LIBC.inotify_add_watch(self.fd, tmp.encode(), IN_ACCESS | IN_OPEN | IN_MODIFY | IN_CREATE |
                                                  IN_DELETE) < 0:
            raise RuntimeError('inotify is not available')
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.calls = []
        self.thread = threading.Thread(target=self.serve, daemon=True)
        self.thread.start()

    def serve(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            self.calls.append(1)
            c.close()

    def files(self):
        """Names of the files of the directory accessed since the last call."""
        out = set()
        while True:
            try:
                b = os.read(self.fd, 65536)
            except BlockingIOError:
                return out
            while b:
                _, mask, _, n = struct.unpack('iIII', b[:16])
                out.add((mask & 0xfff, b[16:16 + n].rstrip(b'\0').decode()))
                b = b[16 + n:]

    def close(self):
        os.close(self.fd)
        self.sock.shutdown(socket.SHUT_RDWR)
        self.thread.join()
        self.sock.close()


def fds():
    out = set()
    for n in os.listdir('/proc/self/fd'):
        try:
            out.add((n, os.readlink('/proc/self/fd/' + n)))
        except OSError:
            pass
    return out


def left_open(before):
    left = fds() - before
    if left:
        gc.collect()
        left = fds() - before
    return left


LIBS = tuple({os.path.realpath(p) + os.sep for p in (sysconfig.get_paths()['stdlib'], sysconfig.get_paths()['purelib'],
                                                    sys.base_prefix, env.REPO)})


def foreign(events, allowed):
    """Events of the audit that reading the document does not explain."""
    out = []
    for name, args in events:
        if name == 'open':
            path, mode, flags = args
            if isinstance(path, bytes):
                path = path.decode('utf-8', 'replace')
            writes = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            if isinstance(path, int) or not writes and (
                    str(path) in allowed or os.path.realpath(str(path)).startswith(LIBS) or
                    str(path).startswith(('/proc/self/', '/usr/share/zoneinfo'))):
                continue
        out.append((name, repr(args)[:200]))
    return out


# --------------------------------------------------------------------------- hostile documents

SECRET = 'canary7f3a'


def contents(xml):
    """Positions between the tags of a document, inside of the root element."""
    first = xml.index('<lgr')
    pos = [m.end() for m in re.finditer(r'<[^>]*>', xml[first:])]
    return [first + p for p in pos[:-1]]


def texts(xml):
    """Positions inside of texts."""
    first = xml.index('<lgr')
    return [first + m.start(1) + 1 for m in re.finditer(r'>([^<&]{2,})<', xml[first:])]


ATTR = re.compile(r'(?<=\s)(?!xmlns)([a-z-]+)="([^"<]*)"')


def hostile(ctx, xml, tmp, port, name):
    """(document, the same without what refers outside of it, whether it is well-formed)"""
    rng = ctx.rng
    head, rest = xml.split('?>\n', 1)
    clean = rest
    target = lambda: rng.choice(['canary.txt', os.path.join(tmp, 'canary.txt'), 'file://' + os.path.join(tmp, 'canary.txt'),
                                 'canary.dtd', os.path.join(tmp, 'canary.dtd'),
                                 'http://127.0.0.1:%d/canary.dtd' % port, 'ftp://127.0.0.1:%d/canary.dtd' % port])
    decl = []
    names = []
    for i in range(rng.randint(0, 3)):
        kind = rng.choice(['text', 'number', 'element', 'system', 'public', 'nested'])
        n = 'e%d' % i
        if kind == 'text':
            decl.append('<!ENTITY %s "some text">' % n)
        elif kind == 'number':
            decl.append('<!ENTITY %s "0061">' % n)
        elif kind == 'element':
            decl.append('<!ENTITY %s "<char xmlns=\'%s\' cp=\'0063\'/>">' % (n, spec.NS))
        elif kind == 'nested':
            decl.append('<!ENTITY %s "%s">' % (n, ''.join('&%s;' % rng.choice(names) for _ in range(2)) if names else ''))
        elif kind == 'system':
            decl.append('<!ENTITY %s SYSTEM "%s">' % (n, target()))
        else:
            decl.append('<!ENTITY %s PUBLIC "-//x//y" "%s">' % (n, target()))
        names.append(n)
        ctx.event('entity-' + kind)
    if rng.random() < 0.3:
        decl.append('<!ENTITY % p SYSTEM "' + target() + '">\n%p;')
        ctx.event('parameter-entity')
    # references in contents
    if names:
        marks = []
        for _ in range(rng.randint(0, 4)):
            pos = rng.choice(contents(rest) if rng.random() < 0.7 or not texts(rest) else texts(rest))
            marks.append((pos, '&%s;' % rng.choice(names)))
        for pos, m in sorted(marks, reverse=True):
            rest = rest[:pos] + m + rest[pos:]
        if marks:
            ctx.event('reference-in-content')
    # internal entities in attributes
    n = 0
    for _ in range(rng.choice([0, 0, 1, 2])):
        found = [m for m in ATTR.finditer(rest) if '&' not in m.group(2)]
        if found:
            m = rng.choice(found)
            decl.insert(0, '<!ENTITY v%d "%s">' % (n, m.group(2)))
            rest = rest[:m.start(2)] + '&v%d;' % n + rest[m.end(2):]
            n += 1
            ctx.event('reference-in-attribute')
    # elements and attributes that name other documents
    if rng.random() < 0.3:
        pos = rng.choice([m.start() for m in re.finditer('</(?:meta|data|rules)>', rest)])
        rest = rest[:pos] + '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="%s" parse="text"/>' % target() + \
            rest[pos:]
        pos = clean.index(re.match('</[a-z]+>', rest[rest.index('/>', pos) + 2:]).group())
        clean = clean[:pos] + '<foo/>' + clean[pos:]
        ctx.event('inclusion')
    if rng.random() < 0.2:
        rest = rest.replace('<lgr ', '<lgr xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="%s %s" '
                            'xml:base="%s" ' % (spec.NS, target(), target()), 1)
        ctx.event('schema-location')
    dtd = ''
    external = rng.choice(['', '', ' SYSTEM "%s"' % target(), ' PUBLIC "-//x//y" "%s"' % target()])
    if decl or external:
        dtd = '<!DOCTYPE lgr%s [%s]>\n' % (external, '\n'.join(decl))
        ctx.event('external-dtd' if external else 'dtd')
    pi = '<?xml-stylesheet type="text/xsl" href="%s"?>\n' % target() if rng.random() < 0.2 else ''
    return (head + '?>\n' + pi + dtd + rest).encode(), (head + '?>\n' + clean).encode()


def outcome(fn):
    try:
        return 'ok', fn()
    except Exception as e:
        return type(e).__name__, None


def read(parser, src, name, mode, ops, schema, kept=None):
    p = parser(src, name, force=mode[0], allow_invalid_property=mode[1])
    if kept is not None:
        kept.append(p)      # what is open must be closed while the parser lives
    if mode[2]:
        p.unicode_database = env.unidb()
    out = []
    for o in ops:
        if o == 'version':
            out.append(p.unicode_version())
        else:
            r = p.validate_document(schema)
            out.append(r is None)
    lgr = p.parse_document()
    return [spec.snapshot(lgr), out]


def entities(ctx):
    from lgr.parser.heuristic_parser import HeuristicParser
    from lgr.parser.xml_parser import XMLParser
    from lgr.parser.xml_serializer import serialize_lgr_xml
    rng = ctx.rng
    s = c10.mk(rng)
    doc = c10.Doc(s)
    faults = rng.choice([0, 0, 0, 1])
    for _ in range(faults):
        c10.inject(rng, doc, s)
    xml = doc.xml().decode()
    schema = os.path.join(env.REPO, 'resources', 'lgr.rng')
    with tempfile.TemporaryDirectory(prefix='verif-c34-') as tmp:
        for n in ('canary.txt', 'canary.dtd'):
            with open(os.path.join(tmp, n), 'w') as f:
                f.write(SECRET if n == 'canary.txt' else '<!ENTITY e9 "%s">' % SECRET)
        w = Watch(tmp)
        try:
            data, clean = hostile(ctx, xml, tmp, w.port, 'doc.xml')
            path = os.path.join(tmp, 'doc.xml')
            with open(path, 'wb') as f:
                f.write(data)
            w.files()
            parser = rng.choice([XMLParser, XMLParser, HeuristicParser])
            mode = (rng.random() < 0.7, rng.random() < 0.2, rng.random() < 0.3)
            ops = [rng.choice(['version', 'validate']) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            kind = rng.choice(['path', 'path', 'file', 'bytes', 'text' if parser is HeuristicParser else 'bytes'])
            if kind == 'text':
                kind = 'bytes'
            src = {'path': lambda: path, 'file': lambda: open(path, 'rb'), 'bytes': lambda: io.BytesIO(data)}[kind]()
            d = lambda: '%s from %s, mode %s, %s\n%s' % (parser.__name__, kind, mode, ops, data.decode())
            w.files()
            kept = []
            before = fds()
            cwd = os.getcwd()
            os.chdir(tmp)
            _AUDIT[0] = events = []
            try:
                try:
                    got = read(parser, src, 'doc.xml', mode, ops, schema, kept)
                    res = 'ok'
                except Exception as e:
                    got, res = None, type(e).__name__
                    del e
            finally:
                _AUDIT[0] = None
                os.chdir(cwd)
            after = left_open(before)
            seen = w.files()
            calls = list(w.calls)
            if kind == 'file':
                ctx.check(not src.closed, 'source-closed', d)
                if res == 'ok':
                    ctx.eq(src.tell(), 0, 'source-rewound', d)
                src.close()
        finally:
            w.close()
        ctx.check(not [x for x in seen if x[1] != 'doc.xml'], 'file-accessed', lambda: '%s; %s' % (sorted(seen), d()))
        ctx.check(not [x for x in seen if x[0] & ~(IN_ACCESS | IN_OPEN)], 'file-written',
                  lambda: '%s; %s' % (sorted(seen), d()))
        ctx.check(not calls, 'connection', d)
        bad = foreign(events, (path, 'doc.xml', schema))
        ctx.check(not bad, 'other-access', lambda: '%s; %s' % (bad, d()))
        ctx.eq(after, set(), 'descriptor-left-open', d)
        ctx.check(SECRET not in repr(got), 'content-of-another-document', d)
        # what refers outside is ignored
        base_ops = [o for o in ops if o == 'version']
        with open(os.path.join(tmp, 'doc.xml'), 'wb') as f:
            f.write(clean)
        want_res, want = outcome(lambda: read(parser, path if kind == 'path' else io.BytesIO(clean), 'doc.xml', mode,
                                              base_ops, schema))
        if res == 'ok':
            versions = [o for o, k in zip(got[1], ops) if k == 'version']
            ctx.eq(want_res, 'ok', 'refused-without-references', d)
            if want is not None:
                diff = spec.diff_snap(want[0], got[0])
                ctx.check(not diff, 'content', lambda: '%s; %s' % (diff, d()))
                ctx.eq(versions, want[1], 'unicode-version', d)
            ctx.event('accepted')
            ctx.seen(data)
            ctx.show(data.decode()[:400])
        else:
            ctx.eq(res, want_res, 'outcome', d)
            ctx.event('refused')


# --------------------------------------------------------------------------- bombs

CHILD = """
import sys, io, json, resource, time
resource.setrlimit(resource.RLIMIT_AS, (%(mem)d, %(mem)d))
resource.setrlimit(resource.RLIMIT_CPU, (%(cpu)d, %(cpu)d))
sys.path[:0] = [%(repo)r]
import logging; logging.disable(50)
from lgr.parser.xml_parser import XMLParser
from lgr.parser.heuristic_parser import HeuristicParser
from lgr.parser.xml_serializer import serialize_lgr_xml
data = sys.stdin.buffer.read()
p = {'xml': XMLParser, 'heuristic': HeuristicParser}[%(parser)r](io.BytesIO(data), 'bomb', force=%(force)r)
res = 'ok'
size = 0
try:
    if %(op)r == 'validate':
        p.validate_document(%(schema)r)
    elif %(op)r == 'version':
        p.unicode_version()
    else:
        size = len(serialize_lgr_xml(p.parse_document()))
except MemoryError:
    res = 'memory'
except Exception as e:
    res = type(e).__name__
print(json.dumps([res, size]))
"""


def bombs(ctx):
    rng = ctx.rng
    kind = rng.choice(['exponential', 'quadratic', 'loop', 'wide'])
    width, depth = rng.randint(8, 20), rng.randint(8, 12)
    if kind == 'exponential':
        decl = '<!ENTITY b0 "%s">' % (rng.choice(['0061 ', 'lol', '<foo/>']) * 10)
        decl += ''.join('<!ENTITY b%d "%s">' % (i, ('&b%d;' % (i - 1)) * width) for i in range(1, depth))
        ref = '&b%d;' % (depth - 1)
    elif kind == 'quadratic':
        decl = '<!ENTITY b0 "%s">' % ('0061 ' * 40000)
        ref = '&b0;' * 20000
    elif kind == 'loop':
        decl = '<!ENTITY b0 "&b1;x"><!ENTITY b1 "&b0;y">'
        ref = '&b0;'
    else:
        decl = ''.join('<!ENTITY b%d "%s">' % (i, 'x' * 20) for i in range(5000))
        ref = ''.join('&b%d;' % i for i in range(5000))
    # the XML library expands attributes, with its own limit against exponential growth only
    where = rng.choice(['description', 'class', 'data'] + ([] if kind == 'quadratic' else ['attribute', 'comment', 'dtd']))
    p = dict(attribute='', comment='', description='', **{'class': '', 'data': '', 'dtd': ''})
    p[where] = ref
    if where == 'dtd':
        # a default value of an attribute
        decl += '<!ATTLIST char comment CDATA "%s">' % ref
    data = ('<?xml version="1.0"?>\n<!DOCTYPE lgr [%s]>\n<lgr xmlns="%s"><meta><description>%s</description></meta><data>'
            '<char cp="0061" tag="%s" comment="%s"/><char cp="0062"/>%s</data><rules><class name="c">0061 %s</class></rules></lgr>'
            % (decl, spec.NS, p['description'], p['attribute'], p['comment'], p['data'], p['class']))
    if where == 'dtd':
        data = data.replace(' comment=""', '')
    op = rng.choice(['parse', 'parse', 'validate', 'version'])
    code = CHILD % dict(mem=1536 << 20, cpu=40, repo=env.REPO, parser=rng.choice(['xml', 'heuristic']),
                        force=rng.random() < 0.7, op=op, schema=os.path.join(env.REPO, 'resources', 'lgr.rng'))
    d = lambda: '%s in %s, %s; %d bytes' % (kind, where, op, len(data))
    r0 = resource.getrusage(resource.RUSAGE_CHILDREN)
    c = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code], input=data.encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    out = c.stdout.decode().strip()
    if c.returncode != 0 and not (c.returncode < 0 or b'MemoryError' in c.stderr):
        raise RuntimeError(c.stderr.decode()[-2000:])
    ctx.check(c.returncode == 0, 'limit-reached', lambda: '%s %s; %s' % (c.returncode, c.stderr[-300:], d()))
    if c.returncode == 0:
        import json
        res, size = json.loads(out)
        ctx.check(res != 'memory', 'memory', d)
        # an expansion is at most some times as long as what it was written with
        ctx.check(size <= 20 * len(data) + 12000000, 'size', lambda: '%d; %s' % (size, d()))
        ctx.event('bomb-' + ('accepted' if res == 'ok' else 'refused'))
        ctx.seen(kind, where, op, width, depth, res)
    ctx.event('bomb-' + kind)


# --------------------------------------------------------------------------- sources of tables

def sources(ctx):
    """Text tables and broken documents: files are closed, streams stay usable, nothing else is opened."""
    from lgr.parser.heuristic_parser import HeuristicParser
    from lgr.parser.line_parser import LineParser
    from lgr.parser.rfc3743_parser import RFC3743Parser
    from lgr.parser.rfc4290_parser import RFC4290Parser
    from lgr.parser.xml_parser import XMLParser
    rng = ctx.rng
    broken = None
    if rng.random() < 0.5:
        kind = rng.choice([c11.Rfc4290, c11.Rfc3743, c11.Line])
        t = kind(rng)
        cls = {'RFC4290Parser': RFC4290Parser, 'RFC3743Parser': RFC3743Parser, 'LineParser': LineParser}[t.name]
        data = '\n'.join(t.lines).encode()
        if rng.random() < 0.3 and len(data) > 2:
            broken = 'utf-8'
            pos = rng.randrange(len(data))
            data = data[:pos] + rng.choice([b'\xff', b'\xc3', b'\xed\xa0\x80']) + data[pos:]
    else:
        cls = XMLParser
        s = c10.mk(rng)
        doc = c10.Doc(s)
        for _ in range(rng.choice([0, 1, 2])):
            c10.inject(rng, doc, s)
        data = doc.xml()
        r = rng.random()
        if r < 0.3:
            broken = 'truncated'
            data = data[:rng.randrange(len(data))]
        elif r < 0.5:
            broken = 'bytes'
            pos = rng.randrange(len(data))
            data = data[:pos] + rng.choice([b'<', b'&', b'\xff', b'\0', b'>', b'"', b']]>']) + data[pos + rng.randint(0, 3):]
    parser = rng.choice([cls, HeuristicParser])
    force = rng.random() < 0.6
    with tempfile.TemporaryDirectory(prefix='verif-c34-') as tmp:
        path = os.path.join(tmp, 'table')
        with open(path, 'wb') as f:
            f.write(data)
        binary = cls is XMLParser or parser is HeuristicParser
        kinds = ['path', 'pathlib', 'binary' if binary else 'text', 'bytes' if binary else 'str']
        kind = rng.choice(kinds)
        d = lambda: '%s from %s, broken %s, force %s\n%r' % (parser.__name__, kind, broken, force, data)
        opened = []

        def source():
            if kind == 'path':
                return path
            if kind == 'pathlib':
                return Path(path) if cls is not XMLParser else path
            if kind == 'bytes':
                return io.BytesIO(data)
            if kind == 'binary':
                return open(path, 'rb')
            if kind == 'text':
                return open(path, encoding='utf-8', newline=None)
            return io.StringIO(data.decode('utf-8', 'replace'), newline=None)

        results = []
        ops = [rng.choice(['version', 'validate']) for _ in range(rng.choice([0, 0, 1]))] if parser in (XMLParser, HeuristicParser) else []
        src = source()
        kept = []
        for again in range(2):
            before = fds()
            _AUDIT[0] = events = []
            try:
                try:
                    r = read(parser, src, 'table', (force, False, False), ops,
                             os.path.join(env.REPO, 'resources', 'lgr.rng'), kept)
                    res = 'ok'
                except Exception as e:
                    r, res = None, type(e).__name__
                    del e
            finally:
                _AUDIT[0] = None
            after = left_open(before)
            bad = foreign(events, (path, os.path.join(env.REPO, 'resources', 'lgr.rng')))
            ctx.check(not bad, 'other-access', lambda: '%s; %s' % (bad, d()))
            ctx.eq(after, set(), 'descriptor-left-open', d)
            if hasattr(src, 'closed'):
                ctx.check(not src.closed, 'source-closed', d)
                src.seek(0)
            results.append([res, r])
        if hasattr(src, 'close'):
            src.close()
        ctx.check(results[0] == results[1], 'read-again', lambda: '%s then %s; %s' % (
            results[0][0], results[1][0], d()))
        ctx.event('%s-%s' % (cls.__name__, 'ok' if res == 'ok' else 'error'))
        if res == 'ok':
            ctx.seen(data, kind)
        if broken:
            ctx.event('broken-' + broken)


# --------------------------------------------------------------------------- downloads

def download(ctx):
    """download_file gives the name and the bytes of a document, and closes its connection."""
    from lgr.tools.utils import download_file
    rng = ctx.rng
    s = c10.mk(rng)
    data = rng.choice([c10.Doc(s).xml(), b'', bytes(rng.randrange(256) for _ in range(rng.choice([1, 1000, 200000])))])
    name = rng.choice(['lgr.xml', 'a%20b.xml', 'x.tar.gz', '', 'table-é'.encode().hex() + '.txt'])
    path = rng.choice(['/', '/some/dir/', '/a/']) + name
    query = rng.choice(['', '?q=1', '?p=/etc/x', '#frag'])
    chunked, status = rng.random() < 0.3, rng.choice([200, 200, 200, 404])
    got, eof = [], threading.Event()
    server = socket.socket()
    server.bind(('127.0.0.1', 0))
    server.listen(4)

    def serve():
        c, _ = server.accept()
        with c:
            req = b''
            while b'\r\n\r\n' not in req:
                x = c.recv(65536)
                if not x:
                    return
                req += x
            got.append(req.split(b' ')[1].decode())
            head = b'HTTP/1.1 %d X\r\nConnection: close\r\n' % status
            try:
                if chunked:
                    c.sendall(head + b'Transfer-Encoding: chunked\r\n\r\n')
                    pos = 0
                    while pos < len(data):
                        n = rng.choice([1, 10, 1000, 100000])
                        part = data[pos:pos + n]
                        c.sendall(b'%x\r\n%s\r\n' % (len(part), part))
                        pos += n
                    c.sendall(b'0\r\n\r\n')
                else:
                    c.sendall(head + b'Content-Length: %d\r\n\r\n' % len(data) + data)
                c.settimeout(20)
                if c.recv(1) == b'':
                    eof.set()
            except OSError:
                eof.set()

    th = threading.Thread(target=serve, daemon=True)
    before = fds()
    th.start()
    url = 'http://127.0.0.1:%d%s%s' % (server.getsockname()[1], path, query)
    d = lambda: '%s, %d bytes, chunked %s, status %s' % (url, len(data), chunked, status)
    res = None
    try:
        try:
            res = download_file(url)
        except Exception as e:
            ctx.check(status == 404 and type(e).__name__ == 'HTTPError', 'failure', lambda: '%r; %s' % (e, d()))
            e.__traceback__ = None
            if hasattr(e, 'close'):
                e.close()
        th.join(30)
        ctx.check(eof.is_set(), 'connection-closed', d)
    finally:
        server.close()
    left = {x for x in left_open(before) if not x[1].startswith('pipe')}
    ctx.eq(left, set(), 'descriptor-left-open', d)
    ctx.eq(got, [path + (query if query.startswith('?') else '')], 'request', d)
    if status == 404:
        ctx.check(res is None, 'error-page-as-document', d)
        ctx.event('missing')
    elif res is not None:
        ctx.eq(res[0], name, 'name', d)
        ctx.eq(res[1].tell(), 0, 'position', d)
        ctx.check(res[1].read() == data, 'data', d)
        ctx.event('downloaded')
        ctx.seen(url.split(':')[2], len(data), chunked)


SCENARIOS = [
    Scenario('entities', entities, 2500, 60000,
             need=['accepted', 'refused', 'reference-in-content', 'reference-in-attribute', 'inclusion', 'schema-location',
                   'external-dtd', 'parameter-entity', 'entity-system', 'entity-public', 'entity-element']),
    Scenario('bombs', bombs, 48, 800, need=['bomb-exponential', 'bomb-quadratic', 'bomb-loop', 'bomb-wide', 'bomb-refused',
                                            'bomb-accepted']),
    Scenario('sources', sources, 1500, 30000, need=['XMLParser-ok', 'XMLParser-error', 'RFC4290Parser-ok',
                                                    'RFC3743Parser-ok', 'LineParser-ok', 'LineParser-error',
                                                    'broken-utf-8', 'broken-truncated', 'broken-bytes']),
    Scenario('download', download, 60, 600, need=['downloaded', 'missing']),
]
