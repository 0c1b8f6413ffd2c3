"""The analysed programs: the generator itself and the static parts of the code it generates."""
import os, functools
from . import front
from .program import Program, load_cli

CLI = lambda: os.path.join(front.REPO, 'cli/src')


def rs_static_dir():
    return os.path.join(CLI(), 'protocol/render/rust/static')


def ts_static_dir():
    return os.path.join(CLI(), 'protocol/render/typescript/static')


@functools.lru_cache(None)
def cli():
    return load_cli()


def _strip(t):
    i = t.find('// injectable')
    return t[i:] if i >= 0 else t


@functools.lru_cache(None)
def rs_static():
    """The run-time part of every generated Rust protocol, as one module (that is how it is emitted)."""
    p = Program('rs')
    texts, names = [], []
    for f in front.list_sources(rs_static_dir(), '.rs'):
        # keep line numbers of the original file
        t = open(f).read()
        i = t.find('// injectable')
        if i >= 0:
            t = '\n' * t[:i].count('\n') + t[i:]
        texts.append(t)
        names.append(f)
    for f, tr in zip(names, front.parse_texts('rs', texts)):
        p.add_text(tr, f)
    p.finish()
    return p


@functools.lru_cache(None)
def ts_static():
    p = Program('ts')
    fs = front.list_sources(ts_static_dir(), '.ts')
    trees = front.parse_files('ts', fs)
    for f in fs:
        p.add_text(trees[f], f)
    p.finish()
    return p
