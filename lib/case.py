"""Runs one program and judges it against the model: list of issues (properties, code, message, op index)."""
import traceback
import model as M, cmp, execu


def judge(prog, res, fonts=True, setup=None, comparer=None):
    m = M.Model()
    m.files = {}
    if setup: setup(m)
    stats = {}
    pdfs = {}
    for i, op in enumerate(prog):
        r = res[i]
        n = op[0]
        if n == '#file':
            m.files[op[1]] = op[2].encode('latin-1') if isinstance(op[2], str) else op[2]
        if n == '#read':
            m.pos += 1
            data = r[1] if r else None
            gs = [g for g in m.gens if g.fname == op[1]]
            gen = gs[-1] if gs else None
            if gen is None or gen.taint: continue
            if not gen.written:
                if data is not None and not getattr(gen, 'attempted', False): m.issue(('C23',), 'early', 'the file exists before the document was written')
                continue
            if data is None:
                m.issue(('C01', 'C23'), 'nofile', 'write succeeded but there is no file'); continue
            try: iss, st, p = (comparer or cmp.check)(m, gen, data, fonts)
            except Exception as x:
                # the structure of the file is not at all what the comparison can handle
                fr = traceback.extract_tb(x.__traceback__)[-1]
                m.issue(('*',), 'structure:%s:%s' % (type(x).__name__, fr.name), 'the file has an unexpected structure: %s in %s: %s' % (type(x).__name__, fr.name, x))
                continue
            pdfs[i] = (gen, p, data)
            for k, v in st.items(): stats[k] = stats.get(k, 0) + v
            for props, code, msg in iss: m.issue(tuple(props), code, msg)
            continue
        m.step(op, r)
    return m, stats, pdfs


def run(ex, prog, **kw):
    """(issues, stats, model).  A crash is an issue of every property ('*')."""
    try:
        res = ex.run(prog)
    except execu.Crash as c:
        op = prog[c.pos] if c.pos is not None and 0 <= c.pos < len(prog) else None
        where = op[0] if op else '?'
        err = c.err.strip()
        key = crashkey(err)
        return [(('*',), 'crash:%s:%s' % (c.what if 'hang' in c.what else 'died', where), '%s in %s %s' % (c.what, M.opstr(op) if op else '?', key), c.pos)], {}, None
    m, st, pdfs = judge(prog, res, **kw)
    return m.issues, st, m


def crashkey(err):
    import re
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/[^\s:]+):(\d+)', err)
    s = re.findall(r'(?:ERROR: \S+: [^\n]*|runtime error: [^\n]*|SUMMARY: [^\n]*|Assertion[^\n]*|terminate called[^\n]*)', err)
    fr = [f for f in fr if '/repo/' in f[1] or 'src/' in f[1]][:3]
    return ' | '.join(s[:2]) + ' ' + ' < '.join('%s %s:%s' % (a.split('(')[0], b.split('/')[-1], c) for a, b, c in fr)
