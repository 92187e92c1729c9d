#!/usr/bin/env python3
"""Copies /repo's current working tree (library sources only) to OUT and redirects every `std::` path of the
copy to the facade vprt::vstd.  Files are rewritten only when their content changes, so cargo rebuilds only what
changed."""
import os, re, sys

STD = re.compile(r'(?<![A-Za-z0-9_:$])(?:::)?std(?=\s*::)')
CORE = re.compile(r'(?<![A-Za-z0-9_:$])(?:::)?core(?=\s*::\s*(?:sync|time)\b)')


def rewrite(text):
    text = STD.sub('::vprt::vstd', text)
    return CORE.sub('::vprt::vstd', text)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def main(repo, out, rt):
    keep = set()
    for base, dirs, files in os.walk(os.path.join(repo, 'src')):
        rel = os.path.relpath(base, repo)
        for fn in files:
            p = os.path.join(rel, fn)
            with open(os.path.join(repo, p), encoding='utf-8') as f:
                t = f.read()
            if fn.endswith('.rs'):
                t = rewrite(t)
            put(os.path.join(out, p), t)
            keep.add(os.path.normpath(os.path.join(out, p)))
    for base, dirs, files in os.walk(os.path.join(out, 'src')):
        for fn in files:
            p = os.path.normpath(os.path.join(base, fn))
            if p not in keep:
                os.unlink(p)
    for fn in os.listdir(repo):
        if fn.endswith('.md'):
            with open(os.path.join(repo, fn), encoding='utf-8') as f:
                put(os.path.join(out, fn), f.read())
    manifest = open(os.path.join(repo, 'Cargo.toml')).read()
    # library dependencies stay (none by default), dev-dependencies go
    manifest = re.sub(r'(?m)^\[dev-dependencies[^\n]*\]\n(?:(?!\[)[^\n]*\n?)*', '', manifest)
    manifest = re.sub(r'(?m)^\[\[(?:bench|example|test|bin)\]\]\n(?:(?!\[)[^\n]*\n?)*', '', manifest)
    if re.search(r'^\[dependencies\]', manifest, re.M):
        manifest = re.sub(r'^\[dependencies\]', '[dependencies]\nvprt = { path = "%s" }' % rt, manifest, count=1,
                          flags=re.M)
    else:
        manifest += '\n[dependencies]\nvprt = { path = "%s" }\n' % rt
    if '[workspace]' not in manifest:
        manifest += '\n[workspace]\n'
    put(os.path.join(out, 'Cargo.toml'), manifest)


if __name__ == '__main__':
    main(*sys.argv[1:4])
