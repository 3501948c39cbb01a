"""Allowed signers: what an accepted line means, and that what is printed means the same."""
from .common import *

AS = 'ssh::allowed_signer::AllowedSigner'
ASS = 'ssh::allowed_signer::AllowedSigners'
MOD = 'ssh::allowed_signer'


def toker(prog):
    """the private tokenizer, located by its signatures: (new, next, at_end)"""
    new = by_sig(prog, MOD, [lambda t: t == '&str'], lambda t: t.startswith(MOD) and 'AllowedSigner' in t and t not in (AS, ASS))
    if len(new) != 1:
        return None
    ty = rstr(prog, new[0])
    nx = by_sig(prog, MOD, [lambda t: t == f'&mut {ty}', lambda t: t == 'bool'], lambda t: 'Result<' in t and 'Option<alloc::string::String>' in t)
    en = by_sig(prog, MOD, [lambda t: t == f'&mut {ty}'], lambda t: t == 'bool')
    if len(nx) != 1 or len(en) != 1:
        return None
    return new[0], nx[0], en[0]


def ts_parse(prog):
    r = by_sig(prog, MOD, [lambda t: t == '&str'], lambda t: t.startswith('core::result::Result<i64'))
    return r[0] if len(r) == 1 else None


def ts_format(prog):
    r = by_sig(prog, MOD, [lambda t: t == 'i64'], lambda t: t == 'alloc::string::String')
    return r[0] if len(r) == 1 else None


def tok_ov(prog):
    t = toker(prog)
    if t is None:
        return None
    new, nx, en = t

    def h_new(c):
        return mk('tok', c.val(0), ZERO)

    def h_next(c):
        v = c.val(0)
        r = mk('call', 'tok_next', v, c.val(1))
        c.store(0, step(v))
        return r

    def h_end(c):
        v = c.val(0)
        return mk('call', 'tok_end', v)
    return {new.key: h_new, nx.key: h_next, en.key: h_end}


def step(v):
    return mk('tok', v.a[0], add(v.a[1], ONE)) if v.op == 'tok' else mk('tok+', v)


def parse_run(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    ov = tok_ov(prog)
    ts = ts_parse(prog)
    if ov is None or ts is None:
        return None
    return R.explore(cfg, f'{AS}::from_string', {**ov, **A.pure(ts.key, f'{PK}::from_string')}, ckey='asign')


def someof(c):
    """payload of Ok(Some(x)) of a token call"""
    return fld(fld(c, 0, 0), 1, 0)


def tokcall(x):
    """x is the payload of a token call -> (state, flag) or None"""
    for t in subterms(x):
        if t.op == 'call' and t.a[0] == 'tok_next' and someof(t) is x:
            return t.a[1], t.a[2]
    return None


def trimq(x):
    return mk('trim', x, 'trim_matches', I(34))


def loop_of(run, lv):
    for info in run.it.loops.values():
        if lv in info['init']:
            return info
    return None


def opt_name(F, tok):
    """(option name this path has established, True if the token has an '=') -- None where not known"""
    has = F.truth_of(mk('scontains', tok, I(61)))
    nm = None
    for k, v in F.truth.items():
        if v is not True or k.op != 'eq':
            continue
        for a, b in (k.a, k.a[::-1]):
            if isinstance(b, T) and b.op == 'bytes' and tok in subterms(a):
                nm = (a, b.a[0])
    return nm, has


def beyond(t):
    """t is the optional token behind the key data"""
    return any(c.op == 'call' and c.a[0] == 'tok_next' and c.a[1].op == 'tok+' and c.a[1].a[0].op == 'tok+' and fld(c, 0, 0) is t for c in subterms(t))


OPTS = {'cert_authority': b'cert-authority', 'namespaces': b'namespaces', 'valid_after': b'valid-after', 'valid_before': b'valid-before'}


@rule('signers.line')
def signers_line(R, cfg):
    prog = R.progs[cfg]
    f = prog.find(f'{AS}::from_string')
    if f is None:
        R.bad('missing', AS, None, 'AllowedSigner::from_string does not exist')
        return
    run = parse_run(R, cfg)
    if run is None:
        R.unsure('tokenizer not recognised')
        return
    if not classify(R, run, 'line'):
        return
    ts = ts_parse(prog)
    s = P(f, 1)
    t0 = someof(mk('call', 'tok_next', mk('tok', s, ZERO), ONE))
    ptext = trimq(t0)
    plist = mk('split', ptext, I(44))
    emptyp = mk('any', plist, eq(length(elem(plist, mk('bv', 0))), ZERO))
    names = {n: fx(prog, AS, n) for n in ('principals', 'cert_authority', 'namespaces', 'valid_after', 'valid_before', 'key')}
    if None in names.values():
        R.bad('fields', AS, None, f'AllowedSigner has lost the field {[n for n, i in names.items() if i is None]}')
        return
    loops = {}
    oks = run.oks()
    if run.clean:
        R.expect(bool(oks), 'accepts', f.key, f.span, 'no line is accepted')
    for o in oks:
        v = fld(o.ret, 0, 0)
        g = {n: getf(prog, v, AS, n) for n in names}
        F = o.facts
        # key and the tokens it is made of
        k = g['key']
        kc = next((t for t in subterms(k) if t.op == 'call' and fld(t, 0, 0) is k), None)
        if kc is None or kc.a[0] != f'{PK}::from_string' and not str(kc.a[0]).endswith('PublicKey::from_string'):
            R.mismatch(run, 'key', k, mk('call', 'PublicKey::from_string', mk('the', 'key text')), o, 'key of an accepted line')
            continue
        tx = kc.a[1]
        ps = tx.a if tx.op == 'seq' else ()
        ps = [p[1] for p in ps if p[0] == 's']
        c1 = tokcall(ps[0]) if len(ps) == 3 and len(tx.a) == 3 else None
        if c1 is None:
            R.mismatch(run, 'key text', tx, mk('the', 'type and data of the line'), o, 'text the key is parsed from')
            continue
        last = step(c1[0])
        R.same(run, 'key text', tx, cat(ps[0], B(b' '), someof(mk('call', 'tok_next', last, ZERO))), 'text the key is parsed from', o)
        end = mk('call', 'tok_end', step(last))
        more = [mk('call', 'tok_next', step(last), q) for q in (ZERO, ONE)]
        if F.truth_of(end) is not True and not any(F.variant(fld(c, 0, 0)) == 0 or F.truth_of(mk('is', fld(c, 0, 0), 1)) is False for c in more):
            if run.clean:
                R.bad('rest', f.key, f.span, 'a line is accepted although something follows the key')
            else:
                R.unsure('end of line not decided')
        else:
            R.good('rest')
        # principals
        R.same(run, 'principals', g['principals'], plist, 'principals', o)
        if g['principals'] is plist:
            if F.truth_of(emptyp) is False:
                R.good('no empty principal')
            elif run.clean and not any(plist in subterms(q) and q is not emptyp for q in F.truth):
                R.bad('empty principal', f.key, f.span, 'an empty principal is accepted')
            else:
                R.unsure('empty principals not decided')
        # times
        a, b = g['valid_after'], g['valid_before']
        if F.variant(a) != 0 and F.variant(b) != 0:
            c = le(fld(b, 1, 0), fld(a, 1, 0))
            if tv(o, c) is False:
                R.good('times')
            elif run.clean and F.variant(a) == 1 and F.variant(b) == 1:
                R.bad('times', f.key, f.span, 'a line whose valid-before is not later than its valid-after is accepted')
            elif run.clean:
                # nothing on this path looked at one of the times
                R.bad('times', f.key, f.span, 'valid-before and valid-after are not compared on a path that accepts the line')
            else:
                R.unsure('times not decided')
        for n in OPTS:
            x = g[n]
            info = loop_of(run, x)
            if info is None:
                base = [y for y in subterms(x) if y.op == 'lv']
                info = loop_of(run, base[0]) if len(base) == 1 else None
            if info is None:
                if x.op == 'int' or x.op == 'agg' and not base:
                    if run.clean:
                        R.bad(f'{n}:const', f.key, f.span, f'{n} does not depend on the line: {cut(x)}')
                else:
                    R.unsure(f'{n}: option loop not recognised')
                continue
            loops.setdefault((n, x), (info, c1[0]))
    seen = set()
    for (n, x), (info, tok) in loops.items():
        if (n, info['uid']) in seen:
            continue
        seen.add((n, info['uid']))
        lvs = [y for y in subterms(x) if y.op == 'lv']
        init = subst(x, {y: info['init'][y] for y in lvs if y in info['init']})
        want = ZERO if n == 'cert_authority' else None
        if want is not None:
            R.same(run, f'{n}:default', init, want, f'{n} of a line without that option')
        elif init.op == 'agg':
            R.expect(init.a[1] == 0, f'{n}:default', f.key, f.span, f'{n} of a line without that option is {cut(init)}')
        if tok.op != 'lv' or tok not in info['init']:
            R.unsure(f'{n}: tokens of the option loop not recognised')
            continue
        R.same(run, 'options start', info['init'][tok], mk('tok', s, ONE), 'options are read from')
        ATOMS.update(info['init'])
        otok = someof(mk('call', 'tok_next', tok, ZERO))
        set_seen = set()
        for m, F in zip(info['steps'], info['sfacts']):
            if n == 'cert_authority':
                # generic checks of a step, once
                if m.get(tok) is not step(tok):
                    R.unsure('a round of the option loop does not read exactly one token')
                    continue
                nm, has = opt_name(F, otok)
                changed = [y for y in m if m[y] is not y and y is not tok]
                if run.clean and nm is None and not any(otok in subterms(q) and q.op not in ('is', 'scontains') for q in F.truth):
                    R.bad('unnamed option', f.key, f.span, 'a token is skipped without looking at its name')
                elif nm is not None and nm[1] not in OPTS.values() and run.clean:
                    R.bad('unknown option', f.key, f.span, f'the option {nm[1]!r} is skipped instead of being rejected')
                elif nm is not None and not changed and run.clean:
                    old = {q for q in lvs}
                    R.bad('ignored option', f.key, f.span, f'the option {nm[1]!r} can be ignored: no field of the entry records it') \
                        if not (nm[1] == b'cert-authority' and F.truth_of(x) is True) else R.good('already set')
                else:
                    R.good('option step')
            new = subst(x, {y: m[y] for y in lvs if y in m})
            nm, has = opt_name(F, otok)
            if new is x:
                if nm is not None and nm[1] == OPTS[n] and run.clean and F.truth_of(x) is not True:
                    R.bad(f'{n}:ignored', f.key, f.span, f'a line with the option {OPTS[n].decode()} is read without recording it')
                continue
            if nm is None or has is None:
                R.unsure(f'{n}: option name not recognised')
                continue
            if nm[1] != OPTS[n]:
                if run.clean:
                    R.bad(f'{n}:name', f.key, f.span, f'{n} is set by the option {nm[1]!r}')
                continue
            key = slice_(otok, ZERO, mk('find', otok, I(61))) if has else otok
            val = trimq(slice_(otok, add(mk('find', otok, I(61)), ONE), length(otok))) if has else B(b'')
            set_seen.add(has)
            if nm[0].op == 'strfn':
                R.same(run, f'{n}:key', nm[0].a[1], key, f'name of the option {n}')
                R.expect(nm[0].a[0] in ('to_lowercase', 'to_ascii_lowercase'), f'{n}:case', f.key, f.span, f'the name is mapped with {nm[0].a[0]}')
            else:
                R.unsure(f'{n}: name compared in another way')
            if has and F.truth_of(mk('scontains', val, B(b'"'))) is not False and F.truth_of(mk('scontains', val, I(34))) is not False:
                if run.clean and not any(val in subterms(q) and q.op in ('scontains', 'any', 'all', 'firstpos') for q in F.truth):
                    R.bad(f'{n}:quote', f.key, f.span, f'a value of {n} with a double quote inside is accepted')
                else:
                    R.unsure(f'{n}: quotes not decided')
            if n == 'cert_authority':
                R.same(run, f'{n}:value', new, ONE, 'cert_authority of a line with that option')
                continue
            if F.variant(x) != 0 and F.truth_of(mk('is', x, 1)) is not False and F.truth_of(mk('is', x, 0)) is not True:
                if run.clean:
                    R.bad(f'{n}:twice', f.key, f.span, f'the option {n} can be given twice')
                else:
                    R.unsure(f'{n}: repetition not decided')
            else:
                R.good(f'{n}:once')
            if new.op != 'agg' or new.a[1] != 1:
                R.mismatch(run, f'{n}:value', new, mk('the', 'Some of the value given'), None, f'{n} of a line with that option')
                continue
            got = fld(new, 1, 0)
            if n == 'namespaces':
                sp = mk('split', val, I(44))
                w = mk('filter', sp, bnot(eq(length(elem(sp, mk('bv', 0))), ZERO)))
                if got.op == 'cmap' and got.a[0].op == 'mapf' and len(got.a) == 2:
                    src = got.a[0].a[0]
                    el = got.a[1]
                    R.same(run, f'{n}:value', src, w, 'namespaces are taken from')
                    if el.op == 'seq' and len(el.a) == 1:
                        R.same(run, f'{n}:each', el.a[0][1], elem(src, mk('bv', 0)), 'each namespace')
                    else:
                        R.unsure('namespaces: elements not recognised')
                elif got.op == 'cmap' and got.a[0] is sp and got.a[1].op == 'ite':
                    c, x1, x2 = got.a[1].a
                    em, one_ = eq(length(elem(sp, mk('bv', 0))), ZERO), push(EMPTY, elem(sp, mk('bv', 0)))
                    if (c, x1, x2) in ((em, EMPTY, one_), (bnot(em), one_, EMPTY)):
                        R.good(f'{n}:value')
                    else:
                        R.mismatch(run, f'{n}:value', got, w, None, 'namespaces')
                else:
                    R.same(run, f'{n}:value', got, w, 'namespaces')
            else:
                c = mk('call', ts.key, val)
                R.same(run, f'{n}:value', got, fld(c, 0, 0), f'{n} is')
        if run.clean and not any(u[0] == R.cur and n in u[2] for u in R.unsures):
            R.expect(set_seen, f'{n}:set', f.key, f.span, f'the option {OPTS[n].decode()} is never recorded')
    # rejections
    for o in run.errs():
        F = o.facts
        why = failed(o, lambda t: True) \
            or any(v is False and k.op == 'call' and k.a[0] == 'tok_end' for k, v in F.truth.items()) \
            or F.truth_of(emptyp) is True \
            or any(v is True and k.op == 'eq' and ZERO in k.a and any(isinstance(y, T) and y.op == 'len' and y.a[0].op == 'elem' and y.a[0].a[0] is plist for y in k.a) for k, v in F.truth.items()) \
            or any(q == 1 and beyond(t) for t, q in F.var.items()) \
            or any(v is True and k.op == 'scontains' and k.a[1] in (B(b'"'), I(34)) for k, v in F.truth.items()) \
            or any(k.op == 'eq' and v is True and any(isinstance(y, T) and y.op == 'bytes' and y.a[0] in OPTS.values() for y in k.a) for k, v in F.truth.items()) \
            and (any(t.op == 'lv' and q == 1 for t, q in F.var.items()) or any(k.op == 'is' and k.a[0].op == 'lv' and v is True for k, v in F.truth.items())) \
            or any(k.op == 'le0' and any(x.op == 'fld' and x.a[0].op == 'lv' for x in subterms(k)) for k, v in F.truth.items()) \
            or any(t.op == 'call' or 'tok_next' in show(t) for t, q in F.var.items() if q == 0 and t.op != 'call')
        if why or not run.clean:
            R.good('rejection has a reason')
        else:
            R.bad('rejected', f.key, f.span, 'a well-formed line is rejected: ' + cut(', '.join(show(k) + ('' if v else ' is false') for k, v in F.truth.items())))


def last_of(b):
    return elem(b, sub(length(b), ONE))


def popped(b):
    return slice_(b, ZERO, sub(length(b), ONE))


def isq(F, x, *cs):
    return any(F.truth_of(eq(x, B(c))) is True for c in cs)


def notq(F, x, *cs):
    return all(F.truth_of(eq(x, B(c))) is False for c in cs)


@rule('signers.tokens')
def signers_tokens(R, cfg):
    """the tokenizer loses nothing but blanks and comments"""
    prog = R.progs[cfg]
    t = toker(prog)
    if t is None:
        R.unsure('tokenizer not recognised')
        return
    new, nx, en = t
    # new: what is pushed in a round is exactly the text between two positions
    run = R.explore(cfg, new, ckey='toknew')
    if run is not None:
        s = P(new, 1)
        for info in run.it.loops.values():
            bufs = [y for y, v in info['init'].items() if v is EMPTY]
            if len(bufs) != 1:
                R.unsure('split loop not recognised')
                continue
            b = bufs[0]
            ints = [y for y in info['init'] if y is not b]
            for m, F in zip(info['steps'], info['sfacts']):
                nb = m.get(b, b)
                add_ = list(nb.a[1:]) if nb.op == 'seq' and nb.a[0] == ('s', b) else [] if nb is b else None
                if add_ is None or any(p[0] != 'e' for p in add_):
                    R.unsure('split step not recognised')
                    continue
                txt = [p[1] for p in add_]
                okp = False
                for y in ints:
                    if info['init'][y] is not ZERO:
                        continue
                    # slices are kept symbolic: compare end points
                    pos = y
                    good = True
                    for x in txt:
                        if x.op == 'slice' and x.a[0] is s and (x.a[1] is pos or F.truth_of(eq(x.a[1], pos)) is True):
                            pos = x.a[2]
                        else:
                            good = False
                            break
                    if good and txt and m.get(y) is pos:
                        okp = True
                if okp:
                    R.good('split step')
                elif run.clean and all(x.op == 'slice' and x.a[0] is s for x in txt):
                    R.bad('split', new.key, new.span, f'splitting a line does not keep all of its text: a round adds {cut(nb)}')
                else:
                    R.unsure('split step not decided')
        for o in run.outs:
            v = fld(o.ret, 0, 0)
            x = v.a[0] if v.op == 'rev' else v
            if x.op == 'lv':
                # nothing is left behind the last delimiter
                info = loop_of(run, x)
                ints = [y for y in info['init'] if y is not x] if info else []
                if any(tv(o, le(length(s), y)) is True for y in ints):
                    R.good('rest of the line')
                elif run.clean:
                    R.bad('split rest', new.key, new.span, 'the text behind the last delimiter can be lost')
            elif x.op == 'seq' and len(x.a) == 2 and x.a[1][0] == 'e' and x.a[0][1].op == 'lv':
                e = x.a[1][1]
                if e.op == 'slice' and e.a[0] is s:
                    R.same(run, 'split rest', e.a[2], length(s), 'end of the text behind the last delimiter', o)
                else:
                    R.unsure('rest of the line not recognised')
    # end test and blanks
    for f, lab in ((en, 'end'), (nx, 'next')):
        run = R.explore(cfg, f, ckey='tok' + lab)
        if run is None:
            continue
        for info in run.it.loops.values():
            for m, F in zip(info['steps'], info['sfacts']):
                ch = [(y, v) for y, v in m.items() if v is not y]
                bufs = [y for y, v in ch if v is popped(y) or v is EMPTY]
                if len(bufs) != 1:
                    R.unsure(f'{lab}: loop not recognised')
                    continue
                b = bufs[0]
                x = last_of(b)
                accs = [y for y, v in ch if y is not b and v is cat(y, x)]
                if len(ch) == 1 and m[b] is EMPTY:
                    if isq(F, x, b'#'):
                        R.good('comment')
                    elif run.clean:
                        R.bad(f'{lab}:dropped', f.key, f.span, 'the rest of a line is dropped although no comment starts there')
                elif len(ch) == 1:
                    if isq(F, x, b' '):
                        R.good('blank')
                    elif run.clean:
                        R.bad(f'{lab}:skipped', f.key, f.span, 'a token other than a blank is skipped: ' + cut(', '.join(show(k) + ('' if v else ' is false') for k, v in F.truth.items() if x in subterms(k))))
                elif len(ch) == 2 and accs:
                    q = info['init'][accs[0]]
                    if q is EMPTY:
                        if notq(F, x, b' ', b'"', b'#'):
                            R.good('token text')
                        elif run.clean and not any(x in subterms(k) and k.op != 'eq' for k in F.truth):
                            R.bad(f'{lab}:delimiter', f.key, f.span, 'a token can run over a blank, a quote or a comment sign')
                    elif q is B(b'"'):
                        if notq(F, x, b'"'):
                            R.good('quoted text')
                        elif run.clean:
                            R.bad(f'{lab}:quoted', f.key, f.span, 'quoted text can run over a closing quote')
                elif len(ch) == 2 and run.clean and any(v.op == 'seq' for _, v in ch):
                    R.bad(f'{lab}:text', f.key, f.span, f'a token taken from the line is not added to the text returned: {cut(", ".join(show(v) for _, v in ch))}')
                else:
                    R.unsure(f'{lab}: loop step not recognised')
        if lab == 'end':
            for o in run.outs:
                bufs = {y for k in list(o.facts.truth) + [o.ret] for y in subterms(k) if y.op == 'lv'}
                b = next(iter(bufs)) if len(bufs) == 1 else None
                if b is None:
                    R.unsure('end: buffer not recognised')
                    continue
                r = o.facts.truth_of(o.ret)
                e = o.facts.truth_of(eq(length(b), ZERO))
                if r is None or e is None:
                    R.unsure('end: not decided')
                elif run.clean:
                    R.expect(r == e, 'end', f.key, f.span, f'the end of a line is reported as {r} although the text is {"used up" if e else "not used up"}')
        else:
            for o in run.oks():
                v = fld(o.ret, 0, 0)
                if v.op != 'agg':
                    R.unsure('next: result not recognised')
                    continue
                lv = [y for k in o.facts.truth for y in subterms(k) if y.op == 'lv']
                if v.a[1] == 0:
                    if any(o.facts.truth_of(eq(length(b), ZERO)) is True for b in lv):
                        R.good('no token')
                    elif run.clean:
                        R.bad('next:none', f.key, f.span, 'no token is returned although the line is not used up')


FMT = {8: b'%Y%m%d', 12: b'%Y%m%d%H%M', 14: b'%Y%m%d%H%M%S'}


def callend(t, n):
    return t.op == 'call' and str(t.a[0]).split('::')[-1] == n


@rule('signers.time')
def signers_time(R, cfg):
    prog = R.progs[cfg]
    f = ts_parse(prog)
    if f is None:
        R.unsure('timestamp parser not recognised')
        return
    run = R.explore(cfg, f, ckey='astime')
    if run is None or not classify(R, run, 'time'):
        return
    s = P(f, 1)
    base = trimq(s)
    seen = set()
    for o in run.oks():
        F = o.facts
        v = fld(o.ret, 0, 0)
        x = v.a[1] if callend(v, 'timestamp') else None
        if x is None:
            R.mismatch(run, 'value', v, mk('the', 'seconds of the time given'), o, 'timestamp')
            continue
        if callend(x, 'and_utc'):
            utc, d = True, x.a[1]
        else:
            c = next((q for q in subterms(x) if q.op == 'call' and fld(q, 1, 0) is x), None)
            l = c.a[1] if c is not None and str(c.a[0]).split('::')[-1] in ('earliest', 'latest', 'single') else None
            if l is None or not callend(l, 'and_local_timezone') or 'Local' not in show(l.a[2]):
                R.unsure(f'time zone not recognised: {cut(x)}')
                continue
            utc, d = False, l.a[1]
        z = None
        for b in (base, s):
            for zz in (I(90), B(b'Z')):
                r = F.truth_of(mk('ends', b, zz))
                z = r if r is not None else z
        for b in (base, s):
            for zz in (I(90), B(b'Z')):
                q = lt(length(mk('trim', b, 'trim_end_matches', zz)), length(b))
                r = tv(o, q) if z is None else None
                z = r if r is not None else z
        if z is None:
            if run.clean and not any(k.op in ('ends', 'firstpos', 'scontains', 'starts') or k.op == 'is' for k in F.truth):
                R.bad('zone', f.key, f.span, 'the time zone does not depend on a final Z')
            else:
                R.unsure('zone not decided')
            continue
        R.expect(utc == z, 'zone', f.key, f.span, f'a time {"with" if z else "without"} a final Z is taken as {"UTC" if utc else "local"} time')
        date = None
        if callend(d, 'and_time'):
            h = d.a[2]
            R.expect(not callend(h, 'from_hms') or all(q is ZERO for q in h.a[1:]), 'midnight', f.key, f.span, f'a date means {cut(h)} instead of midnight')
            d = d.a[1]
            date = True
        else:
            c = next((q for q in subterms(d) if callend(q, 'and_hms_opt') and fld(q, 1, 0) is d), None)
            if c is not None:
                R.expect(all(q is ZERO for q in c.a[2:]), 'midnight', f.key, f.span, f'a date means {cut(c)} instead of midnight')
                d = c.a[1]
                date = True
        c = next((q for q in subterms(d) if callend(q, 'parse_from_str') and fld(q, 0, 0) is d), None)
        if c is None:
            R.unsure(f'date parsing not recognised: {cut(d)}')
            continue
        txt, fm = c.a[1], c.a[2]
        n = next((n for n in FMT if F.truth_of(eq(length(txt), I(n))) is True), None)
        if fm.op != 'bytes':
            R.unsure('format not constant')
            continue
        if n is None:
            if run.clean and not any(length(txt) in subterms(k) for k in F.truth):
                R.bad('length', f.key, f.span, 'the number of digits of a time is not checked')
            else:
                R.unsure('length not decided')
            continue
        R.expect(fm.a[0] == FMT[n] and (date is None) == (n != 8), f'format {n}', f.key, f.span, f'a time of {n} digits is read with the format {fm.a[0].decode()!r}')
        seen.add((n, z))
        if not z:
            if txt.op == 'trim' and txt.a[0] is base and txt.a[1] == 'trim_end_matches' and txt.a[2] in (I(90), B(b'Z')):
                txt = base      # nothing to trim
            R.same(run, 'text', txt, base, 'text of the time', o)
        elif base not in subterms(txt):
            R.mismatch(run, 'text', txt, base, o, 'text of the time')
    if run.clean and not any(u[0] == R.cur for u in R.unsures):
        for n in FMT:
            for z in (True, False):
                R.expect((n, z) in seen, f'accepted {n} {z}', f.key, f.span, f'no time of {n} digits {"with" if z else "without"} a final Z is accepted')
    for o in run.errs():
        F = o.facts
        why = failed(o) or any(t.op == 'call' and q == 0 and str(t.a[0]).split('::')[-1] in ('earliest', 'latest', 'single', 'and_hms_opt', 'from_hms_opt') for t, q in F.var.items()) \
            or any(k.op == 'eq' and any(isinstance(x, T) and x.op == 'rem' for x in k.a) and (v is False) == (ZERO in k.a) for k, v in F.truth.items()) \
            or any(all(F.truth_of(eq(l, I(n))) is False for n in FMT) for l in {y for k in F.truth for x in subterms(k) if x.op == 'len' for y in (x, sub(x, ONE))})
        if why or not run.clean:
            R.good('rejection has a reason')
        else:
            R.bad('rejected', f.key, f.span, 'a well-formed time is rejected: ' + cut(', '.join(show(k) + ('' if v else ' is false') for k, v in F.truth.items())))


@rule('signers.list')
def signers_list(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    f = prog.find(f'{ASS}::from_string')
    one = prog.find(f'{AS}::from_string')
    if f is None or one is None:
        R.bad('missing', ASS, None, 'AllowedSigners::from_string does not exist')
        return
    run = R.explore(cfg, f, A.pure(one.key), ckey='aslist')
    if run is None or not classify(R, run, 'list'):
        return
    s = P(f, 1)
    lines = mk('lines', s)
    BV = mk('bv', 0)
    ln = elem(lines, BV)

    def linelike(x):
        return x is ln or x.op == 'trim' and len(x.a) == 2 and linelike(x.a[0])

    def one_to_one(t):
        return t.op == 'cmap' and t.a[1].op == 'seq' and len(t.a[1].a) == 1 and t.a[1].a[0][0] == 'e'

    def numbered(t):
        """the line at position BV of a list of lines, with or without their numbers"""
        if t is lines:
            return ln
        if t.op == 'enum':
            return numbered(t.a[0])
        if one_to_one(t) and t.a[0] in (lines, mk('enum', lines)):
            x = subst(t.a[1].a[0][1], {fld(elem(t.a[0], BV), 0, 0): BV, fld(elem(t.a[0], BV), 0, 1): ln})
            if x.op == 'agg' and x.a[0] == 'tuple' and fld(x, 0, 0) is BV:
                x = fld(x, 0, 1)
            return x if linelike(x) else None

    def leaf(x, cond):
        if x.op == 'ite':
            p, y, n = x.a
            if p.op == 'int':
                return leaf(n if p is ZERO else y, cond)
            if p.op == 'ite':
                return leaf(mk('ite', p.a[0], mk('ite', p.a[1], y, n), mk('ite', p.a[2], y, n)), cond)
            if p.op == 'not' and p.a[0].op in ('ite', 'and', 'not'):
                return leaf(mk('ite', p.a[0], n, y), cond)
            if p.op == 'and':
                z = y
                for q in reversed(p.a):
                    z = mk('ite', q, z, n)
                return leaf(z, cond)
            leaf(y, cond + [(p, True)])
            leaf(n, cond + [(p, False)])
            return
        if x is EMPTY:
            why = False
            for c, v in cond:
                neg_ = c.op == 'not'
                q, w = (c.a[0], not v) if neg_ else (c, v)
                if w and q.op == 'starts' and linelike(q.a[0]) and q.a[1] in (B(b'#'), I(35)):
                    why = True
                if w and q.op == 'eq' and any(isinstance(y, T) and y.op == 'len' and linelike(y.a[0]) for y in q.a) and ZERO in q.a:
                    why = True
            if why:
                R.good('skipped')
            elif run.clean:
                R.bad('skipped', f.key, f.span, 'a line is skipped although it is neither empty nor a comment: ' + cut(', '.join(show(c) + ('' if v else ' is false') for c, v in cond)))
            else:
                R.unsure('skipped line not decided')
            return
        if x.op == 'seq' and len(x.a) == 1 and x.a[0][0] == 'e':
            e = x.a[0][1]
            c = next((q for q in subterms(e) if q.op == 'call' and q.a[0] == one.key and fld(q, 0, 0) is e), None)
            if c is not None and linelike(c.a[1]):
                R.good('entry')
                return
        R.mismatch(run, 'entry', x, mk('the', 'entry parsed from the line'), None, 'entry of a line')

    for o in run.oks():
        v = getf(prog, fld(o.ret, 0, 0), ASS, '0')
        if v is None:
            v = fld(fld(o.ret, 0, 0), 0, 0)
        if v.op == 'cmap' and v.a[0].op == 'filter':
            fs, fb = v.a[0].a
            x = numbered(fs)
            if x is not None and fb.op != 'agg':
                e = elem(v.a[0], BV)
                body = subst(v.a[1], {fld(e, 0, 0): BV, fld(e, 0, 1): x, e: x})
                leaf(mk('ite', fb, body, EMPTY), [])
                continue
        if v.op == 'cmap':
            src = v.a[0].a[0] if v.a[0].op == 'enum' else v.a[0]
            if src is lines:
                leaf(v.a[1], [])
                continue
            if src.op in ('take', 'skip', 'stepby', 'slice'):
                R.mismatch(run, 'lines', src, lines, o, 'lines read')
                continue
        R.unsure(f'list not recognised: {cut(v)}')
    for o in run.errs():
        e = fld(o.ret, 1, 0)
        calls = [t for t, q in o.facts.var.items() if q == 1 and t.op == 'call' and t.a[0] == one.key]
        if calls or failed(o):
            R.good('rejection has a reason')
            ev = variants(prog, 'error::Error').get('InvalidAllowedSigners')
            if e.op == 'agg' and e.a[1] == ev and calls:
                num, arg = fld(e, ev, 1), calls[0].a[1]
                if arg.op == 'fld' and arg.a[0].op == 'elem' and arg.a[0].a[0].op == 'filter':
                    if num is fld(arg.a[0], 0, 0) and arg is fld(arg.a[0], 0, 1) and numbered(arg.a[0].a[0].a[0]) is not None:
                        R.good('line number')
                    else:
                        R.unsure('line number of a filtered line')
                    continue
                idx = next((x.a[1] for x in subterms(arg) if x.op == 'elem' and x.a[0] is lines), None)
                if idx is not None:
                    ATOMS.update(x for i in run.it.loops.values() for x in i['init'])
                    R.same(run, 'line number', num, idx, 'line number reported', o)
        elif run.clean:
            R.bad('rejected', f.key, f.span, 'a list is rejected although every line is well-formed')


@rule('signers.display')
def signers_display(R, cfg):
    import itertools
    prog, A = R.progs[cfg], R.anch[cfg]
    f = display_of(prog, AS)
    if f is None:
        R.bad('missing', AS, None, 'AllowedSigner has no Display')
        return
    tf = ts_format(prog)
    kd = display_of(prog, PK)
    ENC = f'{PK}::encode'
    run = R.explore(cfg, f, A.pure(*([tf.key] if tf else []), ENC), ckey='asdisp')
    if run is None:
        return
    krun = R.explore(cfg, kd, A.pure(ENC), ckey='pkdisp') if kd else None
    v = P(f, 1)
    g = {n: getf(prog, v, AS, n) for n in ('principals', 'cert_authority', 'namespaces', 'valid_after', 'valid_before', 'key')}
    j = mk('join', g['principals'], B(b','))
    comment = getf(prog, g['key'], PK, 'comment')
    ktxt = None
    if krun is not None:
        kp = P(kd, 1)
        for o in krun.outs:
            d = displayed(o, kd)
            if d is not None and o.facts.variant(getf(prog, kp, PK, 'comment')) == 0:
                ktxt = subst(d, {kp: g['key']})
    if ktxt is None:
        R.unsure('text of a key not recognised')
        return

    def ts(x, o):
        if tf is None:
            c = [q for q in o.facts.var if callend(q, 'from_timestamp')]
            return mk('disp', mk('call', 'format', x))
        return mk('call', tf.key, x)
    for o in run.outs:
        F = o.facts
        if is_err(o):
            continue
        txt = displayed(o, f)
        if txt is None or F.variant(comment) == 1:
            # an entry read from a line has a key without comment
            continue
        st = {n: F.variant(g[n]) for n in ('namespaces', 'valid_after', 'valid_before')}
        ca = F.truth_of(g['cert_authority'])
        if None in st.values() or ca is None:
            if run.clean:
                R.bad('ignored', f.key, f.span, f'the printed entry does not depend on {[n for n, q in st.items() if q is None] + (["cert_authority"] if ca is None else [])}')
            continue
        opts = []
        if ca:
            opts.append([B(b' cert-authority')])
        if st['namespaces'] == 1:
            opts.append([cat(B(b' namespaces="'), mk('join', fld(g['namespaces'], 1, 0), B(b',')), B(b'"'))])
        for n, q in (('valid_after', b' valid-after='), ('valid_before', b' valid-before=')):
            if st[n] == 1:
                x = ts(fld(g[n], 1, 0), o)
                opts.append([cat(B(q), x), cat(B(q + b'"'), x, B(b'"'))])
        quoted = cat(B(b'"'), j, B(b'"'))
        hit = None
        for pr in (j, quoted):
            for perm in itertools.permutations(opts):
                for pick in itertools.product(*perm):
                    if cat(pr, *pick, B(b' '), ktxt) is txt:
                        hit = pr
        if hit is None:
            R.mismatch(run, 'form', txt, cat(j, *[q[0] for q in opts], B(b' '), ktxt), o, 'printed entry')
            continue
        if hit is j:
            # printed bare: there must be nothing in it the tokenizer stops at
            sc = [(k, q) for k, q in F.truth.items() if k.op in ('scontains', 'any') and (j in subterms(k) or g['principals'] in subterms(k))]
            cs = set()
            for k, q in sc:
                if q is False and k.op == 'scontains' and k.a[0] is j and isinstance(k.a[1], T):
                    if k.a[1].op == 'bytes':
                        cs |= set(k.a[1].a[0]) if len(k.a[1].a[0]) > 1 and 'set' not in k.a[2:] or True else set()
                    elif k.a[1].op == 'int':
                        cs.add(k.a[1].a[0])
                elif q is False:
                    cs |= {32, 35}
            miss = {32, 35} - cs
            if not miss:
                R.good('bare principals')
            elif run.clean:
                R.bad('quotes', f.key, f.span, f'principals containing {"a blank" if 32 in miss else "#"} are printed without quotes')
        else:
            R.good('quoted principals')
    if tf is not None:
        run = R.explore(cfg, tf, ckey='astf')
        if run is None:
            return
        for o in run.outs:
            c = next((q for q in subterms(o.ret) if callend(q, 'format')), None)
            if c is None:
                fr = [q for q, w in o.facts.var.items() if callend(q, 'from_timestamp') and w == 1]
                if fr and run.clean:
                    R.bad('time', tf.key, tf.span, f'a time is printed as {cut(o.ret)}')
                continue
            R.expect(c.a[2].op != 'bytes' or c.a[2].a[0] in (b'%Y%m%d%H%M%SZ', b'%Y%m%d%H%M%SZ'), 'time format', tf.key, tf.span, f'a time is printed with the format {cut(c.a[2])}')
            x = next((q for q in subterms(c.a[1]) if callend(q, 'from_timestamp')), None)
            if x is not None:
                R.same(run, 'time value', x.a[1], P(tf, 1), 'time printed', o)
