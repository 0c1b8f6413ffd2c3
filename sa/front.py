"""Front end access: parses .rs / .ts sources (and generated fragments) into the common syntax tree."""
import json, os, subprocess, sys, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
RSFRONT_DIR = os.path.join(VERIF, 'rsfront')
REPO = os.environ.get('VERIF_REPO', '/repo')


class FrontError(Exception):
    pass


def rsfront_bin():
    return os.path.join(RSFRONT_DIR, 'target', 'release', 'rsfront')


def ensure_built():
    b = rsfront_bin()
    if os.path.exists(b):
        return
    env = dict(os.environ)
    env.pop('RUSTUP_TOOLCHAIN', None)
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=RSFRONT_DIR, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(b):
        raise FrontError('cannot build rsfront:\n' + p.stdout)


class Server:
    def __init__(self, cmd):
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, reqs):
        out = []
        inp = '\n'.join(json.dumps(r) for r in reqs) + '\n'
        o, _ = self.p.communicate(inp)
        for l in o.splitlines():
            out.append(json.loads(l))
        if len(out) != len(reqs):
            raise FrontError('front end answered %d of %d requests' % (len(out), len(reqs)))
        return out


def _ask(kind, reqs):
    if not reqs:
        return []
    if kind == 'rs':
        ensure_built()
        return Server([rsfront_bin()]).ask(reqs)
    return Server(['node', '--stack-size=4000', os.path.join(HERE, 'tsfront.js')]).ask(reqs)


def parse_files(kind, paths):
    return dict(zip(paths, _ask(kind, [{'path': p} for p in paths])))


def parse_texts(kind, texts, mode=None):
    reqs = []
    for t in texts:
        r = {'text': t}
        if mode:
            r['mode'] = mode
        reqs.append(r)
    return _ask(kind, reqs)


def list_sources(root, ext):
    out = []
    for d, dn, fn in os.walk(root):
        dn[:] = sorted(x for x in dn if x not in ('target', 'node_modules', 'dist', '.git'))
        for f in sorted(fn):
            if f.endswith(ext):
                out.append(os.path.join(d, f))
    return out
