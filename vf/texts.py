"""Generators and readers of transcription files."""
import os

from hypothesis import strategies as st

# Few tokens, so that runs, matches and collisions are frequent; some are
# numbers, YAML words, prefixes of each other, or not ASCII.
TOKENS = ['a', 'b', 'c', 'aa', 'ab', 'no', 'null', '1', '01', '1e3', 'é', '<unk>', 'sil', 'a:b', '#x', "'", '-', 'A']
UTTIDS = ['u1', 'u2', 'u10', 'spk_1-a', 'A', 'u1.wav', 'z', 'é1']
token = st.one_of(st.sampled_from(TOKENS[:3]), st.sampled_from(TOKENS))


def tokens(min_size=0, max_size=8, tok=token):
    return st.lists(tok, min_size=min_size, max_size=max_size)


def runs(min_size=1, max_size=6, tok=token, longest=5):
    'Frame labels: runs of labels.'
    return st.lists(st.tuples(tok, st.integers(1, longest)), min_size=min_size, max_size=max_size).map(
        lambda rs: [t for t, n in rs for _ in range(n)])


def utts(value, min_size=1, max_size=5):
    'List of (identifier, value) with distinct identifiers.'
    return st.lists(st.sampled_from(UTTIDS), min_size=min_size, max_size=max_size, unique=True).flatmap(
        lambda ids: st.tuples(*[value for _ in ids]).map(lambda vs: [[i, v] for i, v in zip(ids, vs)]))


SPACING = ['{} {}\n', '{}\t{}\n', '{}  {} \n', ' {} {}\r\n']
spacing = st.integers(0, len(SPACING) - 1)


def write(path, table, fmt=0):
    with open(path, 'w', newline='') as f:
        for u, toks in table:
            f.write(SPACING[fmt].format(u, ' '.join(toks)))
    return path


def text(table, fmt=0):
    return ''.join(SPACING[fmt].format(u, ' '.join(toks)) for u, toks in table)


def parse(out):
    'Lines of a transcription: [identifier, tokens].'
    return [[l.split()[0], l.split()[1:]] for l in out.split('\n') if l.strip()]


def collapse(toks):
    return [t for i, t in enumerate(toks) if i == 0 or t != toks[i - 1]]


def edit_distance(a, b):
    'Levenshtein distance, one row at a time.'
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        new = [i]
        for j, y in enumerate(b, 1):
            new.append(min(row[j] + 1, new[j - 1] + 1, row[j - 1] + (x != y)))
        row = new
    return row[-1]


def run(ctx, name, *argv, stdin=''):
    from vf import cli
    res = cli.util(name, *argv, stdin=stdin)
    ctx.ensure(res.code == 0, lambda: f'{name}: exit status {res.code}: {res.err[-300:]}')
    return res


def tmp(ctx, name):
    return os.path.join(ctx.tmpdir(), name)
