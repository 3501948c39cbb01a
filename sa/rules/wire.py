"""Reader / Writer primitives and the key-type and curve tables."""
from ..framework import *

ERR = 'error::Error'
RD = 'ssh::reader::Reader'
WR = 'ssh::writer::Writer'


def rd_pre(R, cfg, f):
    a = R.anch[cfg]
    if a.ri is None or a.ro is None:
        return None
    s = P(f, 1)
    return s, fld(s, 0, a.ri), fld(s, 0, a.ro)


def rd_post(R, cfg, o):
    a = R.anch[cfg]
    v = o.st.cells.get(('P', 1))
    if v is None:
        return None, None
    return fld(v, 0, a.ri), fld(v, 0, a.ro)


def false_of(o, t):
    return o.facts.truth_of(t) is False


def true_of(o, t):
    return o.facts.truth_of(t) is True


def prim_rule(kind, meth):
    def r(R, cfg):
        f = R.fn(cfg, f'{RD}::{meth}')
        if f is None:
            return R.unsure(f'{meth} not present')
        pre = rd_pre(R, cfg, f)
        if pre is None:
            return R.unsure('Reader has an unexpected shape')
        run = R.explore(cfg, f, ckey='plain')
        if run is None:
            return
        _, inner, off = pre
        L = length(inner)
        if kind == 'raw':
            end = add(off, P(f, 2))
            want = slice_(inner, off, end)
            hdr = off
        elif kind in ('u32', 'u64'):
            n = 4 if kind == 'u32' else 8
            hdr = end = add(off, I(n))
            want = unbe(n, slice_(inner, off, end))
        else:
            hdr = add(off, I(4))
            end = add(hdr, unbe(4, slice_(inner, off, hdr)))
            want = slice_(inner, hdr, end)
        for o in run.oks():
            R.same(run, f'{meth}:value', o.ret.a[2], want, 'value returned by a successful read', o)
            i2, o2 = rd_post(R, cfg, o)
            R.same(run, f'{meth}:offset', o2, end, 'reader position after a successful read', o)
            R.same(run, f'{meth}:inner', i2, inner, 'the wrapped input changed', o)
            R.expect(o.facts.prove_le(sub(end, L)) or not run.clean, f'{meth}:bounds', f.key, f.span, 'a read succeeds on a path where the input is not known to be long enough')
        for o in run.errs():
            j = false_of(o, le(hdr, L)) or false_of(o, le(end, L)) or true_of(o, le(L, off))
            if not j and kind == 'string':
                j = any(k.op == 'utf8' and v is False and k.a[0] is want for k, v in o.facts.truth.items())
            if not j and not run.clean:
                continue
            R.expect(j, f'{meth}:reject', f.key, f.span, 'a well-formed field that fits in the input is rejected: ' + facts_txt(o))
        if kind == 'string':
            for o in run.oks():
                R.expect(any(k.op == 'utf8' and v is True and k.a[0] is want for k, v in o.facts.truth.items()) or not run.clean,
                         f'{meth}:utf8', f.key, f.span, 'a string is returned without the bytes having been validated as UTF-8')
        if not run.oks() and run.clean:
            R.bad(f'{meth}:never', f.key, f.span, 'no path returns a value')
        for o in run.other():
            R.unsure(f'{meth}: unclassified return {cut(o.ret)}')
    r.__name__ = meth
    return r


def facts_txt(o):
    return cut(', '.join((show(k) if v else 'not ' + show(k)) for k, v in list(o.facts.truth.items())[-6:]))


for _k, _m in (('bytes', 'read_bytes'), ('raw', 'read_raw_bytes'), ('u32', 'read_u32'), ('u64', 'read_u64'), ('string', 'read_string')):
    rule(f'reader.{_m}')(prim_rule(_k, _m))


@rule('lists.eof')
def reader_eof(R, cfg):
    """the list readers take UnexpectedEof for the regular end of a list: it has to mean exactly 'nothing left'"""
    a = R.anch[cfg]
    for m in ('read_bytes', 'read_string'):
        f = R.fn(cfg, f'{RD}::{m}')
        if f is None or not a.reader_ok():
            R.unsure(f'{m} not present')
            continue
        pre = rd_pre(R, cfg, f)
        run = R.explore(cfg, f, ckey='plain')
        if run is None:
            continue
        _, inner, off = pre
        for o in run.errs():
            e = o.ret.a[2]
            if e.op != 'agg' or e.a[0] != ERR:
                if e.op != 'call':
                    R.unsure(f'{m}: error value not located')
                continue
            at_end = o.facts.truth_of(le(length(inner), off))
            if e.a[1] == a.errv['UnexpectedEof']:
                R.expect(at_end is True or not run.clean, f'{m}:eof-early', f.key, f.span,
                         'UnexpectedEof, which ends a list regularly, is reported although input is left: ' + facts_txt(o))
            else:
                R.expect(at_end is not True or not run.clean, f'{m}:eof-other', f.key, f.span, 'the regular end of the input is reported as another error')


@rule('reader.new')
def reader_new(R, cfg):
    f = R.fn(cfg, f'{RD}::new')
    a = R.anch[cfg]
    if f is None or a.ri is None:
        return R.unsure('Reader::new not present')
    run = R.explore(cfg, f)
    if run:
        for o in run.outs:
            R.same(run, 'new:offset', fld(o.ret, 0, a.ro), ZERO, 'initial reader position', o)
            v = fld(o.ret, 0, a.ri)
            okk = v is P(f, 1) or v.op == 'call' and v.a[-1] is P(f, 1)
            R.expect(okk or not run.clean, 'new:inner', f.key, f.span, f'the reader wraps something other than its argument: {cut(v)}')
    for m in ('get_offset', 'set_offset'):
        f = R.fn(cfg, f'{RD}::{m}')
        if f is None:
            R.unsure(f'{m} not present')
            continue
        run = R.explore(cfg, f)
        if run is None:
            continue
        for o in run.outs:
            if m == 'get_offset':
                R.same(run, 'get_offset', o.ret, fld(P(f, 1), 0, a.ro), 'reported reader position', o)
            elif o.ret.op == 'agg' and o.ret.a[1] == 0:
                i2, o2 = rd_post(R, cfg, o)
                R.same(run, 'set_offset', o2, P(f, 2), 'reader position after set_offset', o)
            else:
                R.expect(not run.clean, 'set_offset:err', f.key, f.span, 'set_offset fails')


@rule('reader.read_positive_mpint')
def rd_mpint(R, cfg):
    f = R.fn(cfg, f'{RD}::read_positive_mpint')
    if f is None:
        return R.unsure('read_positive_mpint not present')
    pre = rd_pre(R, cfg, f)
    run = R.explore(cfg, f, {k: v for k, v in R.anch[cfg].reader().items() if k.endswith('read_bytes')})
    if run is None or pre is None:
        return
    _, inner, off = pre
    L = length(inner)
    hdr = add(off, I(4))
    n = unbe(4, slice_(inner, off, hdr))
    end = add(hdr, n)
    raw = slice_(inner, hdr, end)
    b0 = elem(raw, ZERO)
    b1 = elem(raw, ONE)
    for o in run.oks():
        v = o.ret.a[2]
        F = o.facts
        _, o2 = rd_post(R, cfg, o)
        R.same(run, 'mpint:offset', o2, end, 'reader position after a successful read', o)
        if F.truth_of(eq(n, ZERO)) is True:
            R.expect(v is raw or length(v) is ZERO or F.truth_of(eq(length(v), ZERO)) is True or not run.clean, 'mpint:zero', f.key, f.span, 'the empty integer is not returned as the empty value')
        elif F.truth_of(eq(b0, ZERO)) is True:
            tail = slice_(inner, add(off, I(5)), end)
            R.same(run, 'mpint:strip', v, tail, 'value of an integer with a sign byte', o)
            R.expect(F.truth_of(le(I(128), b1)) is True or not run.clean, 'mpint:nonminimal', f.key, f.span, 'an integer with a redundant leading zero byte is accepted')
        else:
            R.same(run, 'mpint:plain', v, raw, 'value of an integer without a sign byte', o)
            R.expect(F.truth_of(le(b0, I(127))) is True or not run.clean, 'mpint:negative', f.key, f.span, 'an integer whose top bit is set (negative) may be accepted')
            R.expect(F.truth_of(eq(b0, ZERO)) is False or not run.clean, 'mpint:lead0', f.key, f.span, 'a leading zero byte may be left in the value')
    for o in run.errs():
        F = o.facts
        j = (false_of(o, le(hdr, L)) or false_of(o, le(end, L)) or true_of(o, le(L, off)) or true_of(o, le(I(128), b0)) or
             true_of(o, eq(b0, ZERO)) and (true_of(o, le(n, ONE)) or true_of(o, eq(n, ONE)) or true_of(o, le(b1, I(127)))))
        R.expect(j or not run.clean, 'mpint:reject', f.key, f.span, 'a valid positive integer is rejected: ' + facts_txt(o))
    if not run.oks() and run.clean:
        R.bad('mpint:never', f.key, f.span, 'no path returns a value')


def scan_pos(run, lv, seqt, match):
    """lv counts the leading elements of seqt satisfying match (a term->term predicate): True/False/None"""
    if isint(lv):
        return True if lv is ZERO else None
    if lv.op == 'firstpos':
        return True if lv.a[0] is seqt and lv.a[1] is bnot(match(elem(seqt, BV0))) else None
    for info in run.it.loops.values():
        if lv in info['init']:
            if info['init'][lv] is not ZERO:
                return None
            for m, b in zip(info['steps'], info.get('backs') or []):
                pass
            for m, cd in zip(info['steps'], info['conds']):
                if m.get(lv, lv) is not add(lv, ONE):
                    return None
                tr = dict(cd) if not isinstance(cd, dict) else cd
                want = match(elem(seqt, lv))
                got = None
                for k, v in tr.items():
                    if k is want and v is True:
                        got = True
                    if v is False and bnot(want) is k:
                        got = True
                if got is None:
                    return None
            return True
    return None


@rule('reader.read_cstring')
def rd_cstring(R, cfg):
    f = R.fn(cfg, f'{RD}::read_cstring')
    if f is None:
        return R.unsure('read_cstring not present')
    pre = rd_pre(R, cfg, f)
    run = R.explore(cfg, f)
    if run is None or pre is None:
        return
    _, inner, off = pre
    L = length(inner)
    for o in run.oks():
        _, o2 = rd_post(R, cfg, o)
        end = sub(o2, ONE)
        R.expect(o.facts.truth_of(eq(elem(inner, end), ZERO)) is True or not run.clean, 'cstring:nul', f.key, f.span, 'the string does not end at a NUL byte just before the new position')
        R.expect(o.facts.prove_le(sub(o2, L)) or not run.clean, 'cstring:bounds', f.key, f.span, 'the new position may lie outside the input')
        s = fld(o.ret, 0, 0)
        info = next((i for i in run.it.loops.values() if s in i['init'] and end in i['init']), None)
        if info is None or not run.clean:
            R.unsure('read_cstring: text not followed: ' + cut(s))
            continue
        R.expect(info['init'][s] is EMPTY and info['init'][end] is off, 'cstring:start', f.key, f.span, 'the string does not start empty at the position of the reader')
        for m in info['steps']:
            ps = parts_of(m.get(s, s))
            if m.get(end) is not add(end, ONE) or not ps or ps[0] != ('s', s):
                R.unsure('read_cstring: round not followed')
                continue
            add_ = [x.a[0] if x.op == 'utf8enc' else x for _, x in ps[1:]]
            R.expect(add_ == [elem(inner, end)], 'cstring:text', f.key, f.span, f'a character of the string is not the byte read: {cut(m[s])}')
    for o in run.errs():
        i2, o2 = rd_post(R, cfg, o)
        R.same(run, 'cstring:restore', o2, off, 'reader position after an unterminated string', o)


# ---------------------------------------------------------------- Writer
def wr_rule(meth, spec):
    @rule(f'writer.{meth}')
    def r(R, cfg):
        f = R.fn(cfg, f'{WR}::{meth}')
        if f is None:
            return R.unsure(f'{meth} not present')
        run = R.explore(cfg, f)
        if run is None:
            return
        s = P(f, 1)
        for o in run.outs:
            v = o.st.cells.get(('P', 1))
            if v is None:
                continue
            want = cat(fld(s, 0, 0), spec(P(f, 2)))
            R.same(run, f'{meth}:bytes', fld(v, 0, 0), want, 'bytes appended', o)
    return r


def strvec_spec(v):
    return lp(cmap(v, lp(elem(v, BV0))))


wr_rule('write_bytes', lambda x: lp(x))
wr_rule('write_string', lambda x: lp(x))
wr_rule('write_raw_bytes', lambda x: x)
wr_rule('write_cstring', lambda x: cat(x, B(b'\0')))
wr_rule('write_u32', lambda x: be(4, x))
wr_rule('write_u64', lambda x: be(8, x))


@rule('writer.basic')
def wr_basic(R, cfg):
    f = R.fn(cfg, f'{WR}::new')
    if f:
        run = R.explore(cfg, f)
        for o in run.outs:
            R.same(run, 'new', fld(o.ret, 0, 0), EMPTY, 'a new writer is not empty', o)
    for m in ('into_bytes', 'as_bytes'):
        f = R.fn(cfg, f'{WR}::{m}')
        if f is None:
            R.unsure(f'{m} not present')
            continue
        run = R.explore(cfg, f)
        for o in run.outs:
            R.same(run, m, o.ret, fld(P(f, 1), 0, 0), 'bytes handed out', o)


@rule('writer.write_mpint')
def wr_mpint(R, cfg):
    f = R.fn(cfg, f'{WR}::write_mpint')
    if f is None:
        return R.unsure('write_mpint not present')
    run = R.explore(cfg, f)
    if run is None:
        return
    s, val = P(f, 1), P(f, 2)
    L = length(val)
    pre = fld(s, 0, 0)
    for o in run.outs:
        v = fld(o.st.cells[('P', 1)], 0, 0)
        ps = parts_of(v)
        if not ps or ps[0] != ('s', pre):
            R.mismatch(run, 'mpint:prefix', v, pre, o, 'earlier output is not preserved')
            continue
        x = seq(ps[1:])
        if x is lp(EMPTY):
            # all bytes are zero
            okk = any(scan_pos(run, lv, val, lambda e: eq(e, ZERO)) and o.facts.truth_of(le(L, lv)) is True
                      for info in run.it.loops.values() for lv in info['init']) or o.facts.truth_of(eq(L, ZERO)) is True or \
                o.facts.truth_of(mk('any', val, bnot(eq(elem(val, BV0), ZERO)))) is False
            if not okk and not any(info['init'] for info in run.it.loops.values()):
                R.bad('mpint:empty', f.key, f.span, 'a non-zero value may be written as zero')
            elif okk:
                R.good('mpint:empty')
            else:
                R.unsure('write_mpint: scan loop not recognised')
            continue
        # candidates for the start of the significant bytes
        cands = [ZERO] + [lv for info in run.it.loops.values() for lv in info['init']] + \
            [t for t in subterms(x) if t.op == 'firstpos']
        hit = False
        for p in cands:
            body = slice_(val, p, L)
            for pad in (False, True):
                want = lp(cat(B(b'\0'), body)) if pad else lp(body)
                if x is want:
                    hit = True
                    b0 = elem(val, p)
                    if p is not ZERO and scan_pos(run, p, val, lambda e: eq(e, ZERO)) is not True:
                        R.unsure('write_mpint: scan loop not recognised')
                        continue
                    empty = o.facts.truth_of(le(L, p)) is True
                    if empty:
                        R.expect(not pad, 'mpint:padzero', f.key, f.span, 'zero is written as a NUL byte')
                        continue
                    R.expect(o.facts.truth_of(eq(b0, ZERO)) is False, 'mpint:leading', f.key, f.span, 'leading zero bytes may be written: ' + facts_txt(o))
                    hi = o.facts.truth_of(le(I(128), b0))
                    R.expect(hi is pad, 'mpint:sign', f.key, f.span,
                             'a value with its top bit set may be written without the sign byte' if not pad else 'a sign byte is written where none is needed')
        if not hit:
            if run.it.loops and any(scan_pos(run, lv, val, lambda e: eq(e, ZERO)) is not True for info in run.it.loops.values() for lv in info['init']):
                R.unsure(f'write_mpint: unrecognised encoding {cut(x)}')
            else:
                R.expect(not run.clean, 'mpint:layout', f.key, f.span, f'not a length-prefixed integer: {cut(x)}')


@rule('writer.write_string_vec')
def wr_vec(R, cfg):
    f = R.fn(cfg, f'{WR}::write_string_vec')
    if f is None:
        return R.unsure('write_string_vec not present')
    run = R.explore(cfg, f)
    if run is None:
        return
    for o in run.outs:
        v = fld(o.st.cells[('P', 1)], 0, 0)
        want = cat(fld(P(f, 1), 0, 0), strvec_spec(P(f, 2)))
        R.same(run, 'strvec', v, want, 'list of strings', o)


@rule('writer.write_string_map')
def wr_map(R, cfg):
    f = R.fn(cfg, f'{WR}::write_string_map')
    if f is None:
        return R.unsure('write_string_map not present')
    run = R.explore(cfg, f)
    if run is None:
        return
    for o in run.outs:
        v = fld(o.st.cells[('P', 1)], 0, 0)
        want = cat(fld(P(f, 1), 0, 0), strmap_spec(P(f, 2)))
        R.same(run, 'strmap', v, want, 'map of strings', o)


def strmap_spec(m):
    es = mk('entries', m)
    b = elem(es, BV0)
    k, v = fld(b, 0, 0), fld(b, 0, 1)
    return lp(cmap(es, ite(eq(length(v), ZERO), cat(lp(k), B(b'\0\0\0\0')), cat(lp(k), lp(lp(v))))))
