"""Every translation unit of the program is parsed and type checked by clang in each configuration: without OpenCL, with the
definitions the build files give each target when OpenCL support is switched on, with OpenCL definitions everywhere, and each of
them in debug mode. A unit that is ill-formed in a configuration is reported at the offending construct. On the resolved program of
each configuration, every function and variable of the repository that a unit refers to, every virtual function of a class that has
objects, and every destructor has to be defined by a unit of that configuration, and nothing may be defined by two. Classes must
have the same members and inline functions the same body in units that are linked together although they are compiled with
different definitions."""
TECHNIQUE = 'type checking of every unit in every configuration and whole-program resolution of declarations to definitions'
NOTE = 'Complete for the sources of the program; third-party headers are stand-ins (shim/) declaring what the code may use, except libpng/libjpeg/OpenSSL which are modelled on their public headers.'

import os, re
from hz import prog
from hz.prog import rel
from hz.extract import AnalysisError, REPO, VERIF, extract_many, sources, ParseFailure

OCL = ('-DHZIP_ENABLE_OPENCL', '-DCL_HPP_ENABLE_EXCEPTIONS')


def targets():
    """TU → (target, definitions when OpenCL is on, definitions in a debug build), as the build files say."""
    r = {}
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        if 'CMakeLists.txt' not in fs:
            continue
        with open(os.path.join(d, 'CMakeLists.txt')) as f:
            text = re.sub(r'#[^\n]*', '', f.read())
        stack, cmds = [], []
        for m in re.finditer(r'(\w+)\s*\(((?:[^()]|\([^()]*\))*)\)', text):
            c, a = m.group(1).lower(), m.group(2)
            if c == 'if':
                stack.append(a)
            elif c == 'endif' and stack:
                stack.pop()
            elif c in ('else', 'elseif') and stack:
                stack[-1] = a if c == 'elseif' else 'not ' + stack[-1]
            else:
                cmds.append((c, a.split(), list(stack)))
        lists, defs, dbg, tus = {}, {}, {}, {}
        for c, a, cond in cmds:
            if c == 'set' and len(a) > 1:
                lists[a[0]] = a[1:]
            if c in ('add_library', 'add_executable', 'target_sources') and a:
                xs = []
                for x in a[1:]:
                    xs += lists.get(x[2:-1], []) if x.startswith('${') and x.endswith('}') else [x]
                for x in xs:
                    if x.endswith('.cpp'):
                        x = x.replace('${CMAKE_CURRENT_SOURCE_DIR}/', '').replace('${CMAKE_CURRENT_LIST_DIR}/', '')
                        tus[os.path.normpath(os.path.relpath(os.path.join(d, x), REPO))] = a[0]
            if c in ('target_compile_definitions', 'add_compile_definitions') and a:
                names = ['-D' + x for x in a[1 if c.startswith('target') else 0:] if x not in ('PRIVATE', 'PUBLIC', 'INTERFACE')]
                key = a[0] if c.startswith('target') else '*'
                if any('OPENCL' in x for x in cond):
                    defs.setdefault(key, []).extend(names)
                elif any('Debug' in x for x in cond):
                    dbg.setdefault(key, []).extend(names)
        for tu, t in tus.items():
            r[tu] = (t, tuple(defs.get('*', []) + defs.get(t, [])), tuple(x for x in dbg.get('*', []) + dbg.get(t, []) if x == '-DDEBUG'))
    return r


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items() if k not in ('l', 'tu', 'id', 'end', 'file', 'lid')}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x.n if isinstance(x, prog.Type) else x


def run(ctx):
    ctx.rule('compiles', 'each unit is well-formed in each configuration', 20)
    ctx.rule('defined', 'each function and variable of the program that is referred to is defined in that configuration', 100)
    ctx.rule('once', 'no unit defines a function or variable that another unit of the configuration defines too', 20)
    ctx.rule('same', 'classes and inline functions are the same in all units that are linked together', 20)
    tg = targets()
    srcs = [s for s in sources() if s in tg]
    if not srcs:
        raise AnalysisError('no sources are named by the build files')
    builds = {
        'without OpenCL': {s: () for s in srcs},
        'with OpenCL, as the build files define it': {s: tg[s][1] for s in srcs},
        'with OpenCL everywhere': {s: OCL for s in srcs},
        'without OpenCL, debug': {s: ('-DDEBUG',) for s in srcs},
        'with OpenCL, debug': {s: tg[s][1] + ('-DDEBUG',) for s in srcs},
    }
    ctx.assume('third-party headers offer what the stand-ins in shim/ declare')
    units = {}
    for b in builds.values():
        for s, x in b.items():
            units[s, x] = None
    keys = list(units)
    jobs = [(s, 'cpu', x) for s, x in keys]
    heads = [(VERIF + '/drivers/headers.cpp', 'cpu', x) for x in ((), OCL)]
    for k, r in zip(keys + heads, extract_many(jobs + heads)):
        name = rel(k[0]) + (' ' + ' '.join(k[-1]) if k[-1] else '')
        if not isinstance(r, ParseFailure):
            ctx.ob('compiles', name)
            if k in units:
                units[k] = r
            continue
        errs = [m for m in re.finditer(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', r.msg, re.M)]
        own = [m for m in errs if 'shim/' not in m.group(1)]
        missing = [m for m in errs if 'file not found' in m.group(3)]
        outside = r"(\bpng_|\bjpeg_|\brainman|\bbitio|\bcl::|\bCL_|\bSHA\d|\bEVP_|'[^']*(?:png|jpeglib|openssl/|CL/|rainman|bitio)[^']*' file not found)"
        if errs and (missing or own) and re.search(outside, (missing or own)[0].group(3)) and re.search('no member|undeclared|unknown type|not found', (missing or own)[0].group(3)):
            raise AnalysisError('%s uses a part of a library that the stand-ins do not declare: %s' % (name, (missing or own)[0].group(3)))
        m = (own or errs or [None])[0]
        ctx.ob('compiles', name, False, rel(os.path.abspath(os.path.join(REPO, m.group(1)))) if m else rel(k[0]), 'translation unit',
               int(m.group(2)) if m else 0, 'ill-formed %s: %s' % ('with ' + ' '.join(k[-1]) if k[-1] else 'in the plain configuration', m.group(3) if m else r.msg[:300]))
    if ctx.violations:
        return
    tus = {k: prog.TU(v, k[0], 'cpu' if not k[1] else ' '.join(k[1])) for k, v in units.items()}
    for bname, b in builds.items():
        p = prog.Program([tus[s, x] for s, x in b.items()])
        ctx.program(p)
        fdef, gdef, where = {}, {}, {}
        for tu in p.tus:
            for d in tu.d['functions']:
                fdef.setdefault(d['id'], []).append((tu, d))
            for g in tu.d['globals']:
                if g.get('def'):
                    gdef.setdefault(g['q'], []).append((tu, g))
        for tu in p.tus:
            for u in tu.d['uses']:
                n = u.get('fid') or u['gq']
                ok = n in (fdef if 'fid' in u else gdef)
                ctx.ob('defined', '%s (%s)' % (n, bname), ok, rel(tu.files[u['file']]), n, u['l'],
                       '%s is used by %s but no unit defines it %s' % (n, tu.name, bname))
        ctx.analysed(*[f for f in p.fns.values() if f.rel.startswith('src/')])
        made = set()
        for r in p.records.values():
            for m in r['methods']:
                if m.get('pure') or m.get('implicit') or m.get('defaulted') or m.get('deleted'):
                    continue
                if m.get('virt') or m['n'].startswith('~'):
                    ctx.ob('defined', '%s (%s)' % (m['id'], bname), m['id'] in fdef, r['relfile'], m['id'], m['l'],
                           '%s is declared, and needed by every object of the class, but no unit defines it %s' % (m['id'], bname))
        for n, ds in list(fdef.items()) + list(gdef.items()):
            strong = [(tu, d) for tu, d in ds if not d.get('inline') and d.get('storage') != 'static' and not d.get('implicit') and not d.get('tmpl')
                      and not (d.get('member') and len({(tu.files[d['file']], d['l']) for tu, d in ds}) == 1 and 'id' not in d)]
            names = sorted({tu.name for tu, d in strong})
            if strong:
                tu, d = strong[-1]
                const = 'id' not in d and d['t'].const
                ctx.ob('once', '%s (%s)' % (n, bname), len(names) < 2 or const, rel(tu.files[d['file']]), n, d['l'],
                       '%s is defined by %s: the program does not link' % (n, ' and by '.join(names)))
        if len(set(b.values())) < 2:
            continue
        recs, inl = {}, {}
        for tu in p.tus:
            for r in tu.d['records']:
                recs.setdefault(r['n'], []).append((tu, r))
            for d in tu.d['functions']:
                if d.get('inline') or d.get('tmpl'):
                    inl.setdefault(d['id'], []).append((tu, d))
        used = {}
        for tu in p.tus:
            for u in tu.d['uses']:
                if 'fid' in u:
                    used.setdefault(u['fid'], set()).add(tu)
        for n, rs in recs.items():
            shapes = {}
            for tu, r in rs:
                shapes.setdefault(repr([(f['n'], f['t'].n) for f in r['fields']] + [m['id'] for m in r['methods'] if m.get('virt')]), (tu, r))
            tu, r = rs[0]
            ctx.ob('same', n, len(shapes) == 1, rel(tu.files[r['file']]), n, r['l'],
                   'objects of %s have different members in %s, which are linked together %s' % (n, ' and '.join(x[0].name for x in list(shapes.values())[:2]), bname))
        for n, ds in inl.items():
            if len({tu.config for tu, d in ds}) < 2:
                continue
            shapes = {}
            for tu, d in ds:
                if tu in used.get(n, ()):
                    shapes.setdefault(repr(norm(d.get('body'))), (tu, d))
            tu, d = ds[0]
            ctx.ob('same', n, len(shapes) < 2, rel(tu.files[d['file']]), n, d['l'],
                   'the inline function %s does different things in %s, which are linked together %s' % (n, ' and '.join(x[0].name for x in list(shapes.values())[:2]), bname))
