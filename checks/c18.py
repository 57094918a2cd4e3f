"""A whole session is explored as a set of abstract states in which the last command word is an arbitrary byte, constrained only by the
comparisons the code has made. Every effect (operation on an archive, job, reply with data) is attributed to every byte value that is
still possible where it is reached and must be among the published effects of that code; every published code must reach its effect; a
byte outside the group must lead to an error report before anything else is read. Received values carry the code they came with: what
an operation is given must have come with the code published for it. Code values of the enums are compared with the published table."""
TECHNIQUE = 'abstract exploration of a session: effects attributed to command values, provenance of received values'
NOTE = 'All command sequences, all byte values.'

from hz import proto
from hz.proto import g, ghost, SUB
from hz.terms import *

CODES = {
    'API': {'STREAM': 0, 'QUERY': 1, 'HEALTH_CHECK': 2, 'CLOSE': 0xff},
    'STREAM': {'ENCODE': 0, 'DECODE': 1, 'WRITE_MSTATE': 2, 'READ_MSTATE': 3},
    'ENCODE': {'STREAM': 0, 'MSTATE_ADDR': 1, 'ARCHIVE': 2, 'DEST': 3, 'ALGORITHM': 4, 'PIGGYBACK': 5, 'TRAIN': 6},
    'DECODE': {'STREAM': 0, 'MSTATE_ADDR': 1, 'ARCHIVE': 2, 'SRC': 3, 'ALGORITHM': 4, 'PIGGYBACK': 5, 'MSTATE_STREAM': 6, 'BLOB_STREAM': 7},
    'MSTATE': {'ARCHIVE': 0, 'ADDR': 1, 'STREAM': 2, 'PIGGYBACK': 3},
    'QUERY': {'ARCHIVE': 0, 'CHECK_IF_FILE_EXISTS': 1, 'LIST_FILE_SYSTEM': 2, 'PIGGYBACK': 3, 'DELETE_FILE': 4, 'DELETE_MSTATE': 5,
              'GET_MEM_USAGE': 6, 'TARGET': 7, 'LIST_MSTATE_SYSTEM': 8},
    'COMMON': {'SUCCESS': 0, 'ERROR': 0xff},
}
GROUPS = {k: set(v.values()) for k, v in CODES.items()}
GROUPS['READ_MSTATE'] = {0, 1, 2, 3}
GROUPS['WRITE_MSTATE'] = {0, 1, 2}
# operation -> the codes that may cause it
EFFECT = {
    'provide': {('ENCODE', 2), ('DECODE', 2), ('WRITE_MSTATE', 0), ('READ_MSTATE', 0), ('QUERY', 0)},
    'check_file_exists': {('ENCODE', 0), ('QUERY', 1)},
    'create_file_entry': {('ENCODE', 0)},
    'read_file_entry': {('DECODE', 0)},
    'read_blob': {('DECODE', 0)},
    'list_file_system': {('QUERY', 2)},
    'list_mstate_system': {('QUERY', 8)},
    'remove_file': {('QUERY', 4)},
    'uninstall_mstate': {('QUERY', 5)},
    'install_mstate': {('WRITE_MSTATE', 2)},
    'read_mstate': {('READ_MSTATE', 2)},
    'job ENCODE': {('ENCODE', 0)},
    'job TRAIN': {('ENCODE', 6)},
    'job DECODE': {('DECODE', 0), ('DECODE', 7)},
    'data': {('ENCODE', 0), ('DECODE', 0), ('DECODE', 7), ('READ_MSTATE', 2), ('QUERY', 1), ('QUERY', 2), ('QUERY', 8), ('QUERY', 6)},
    'success': {('API', 2), ('ENCODE', 0), ('ENCODE', 6), ('DECODE', 0), ('DECODE', 7), ('WRITE_MSTATE', 2), ('READ_MSTATE', 2)},
}
# effects that may but need not be there
MAY = {('check_file_exists', ('ENCODE', 0)), ('read_mstate', ('ENCODE', 0))}
# where the path an operation is given must come from
SOURCE = {
    'create_file_entry': {'ENCODE:3'}, 'read_file_entry': {'DECODE:3'}, 'check_file_exists': {'ENCODE:3', 'QUERY:7'},
    'list_file_system': {'QUERY:7'}, 'list_mstate_system': {'QUERY:7'}, 'remove_file': {'QUERY:7'}, 'uninstall_mstate': {'QUERY:7'},
    'install_mstate': {'WRITE_MSTATE:1'}, 'read_mstate': {'READ_MSTATE:1'},
    'provide': {'ENCODE:2', 'DECODE:2', 'WRITE_MSTATE:0', 'READ_MSTATE:0', 'QUERY:0'},
}
SENT = {('QUERY', 1): 'check_file_exists', ('QUERY', 6): 'alloc_size'}


KNOWN, UNKNOWN, MIXED = mk('str', 'known'), mk('str', 'unknown'), mk('str', 'mixed')


class M(proto.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx
        self.reached = set()

    def close(self, c, s):
        """Is the last code CLOSE: known, mixed (it may be), unknown (it is another one)."""
        cm = c.command(s)
        if cm is None or cm[0] != 'API':
            return UNKNOWN
        k = KNOWN if cm[1] == [0xff] else MIXED if 0xff in cm[1] else UNKNOWN
        return s.mem.get(g('close'), k) if k is MIXED else k

    def effect(self, c, s, name, e, fr):
        cm = c.command(s)
        ok = cm is not None and all((cm[0], v) in EFFECT[name] for v in cm[1])
        if cm is not None and len(cm[1]) == 1:
            self.reached.add((name, (cm[0], cm[1][0])))
        what = '%s:%s' % (cm[0], cm[1] if len(cm[1]) < 6 else 'many') if cm is not None else 'no command'
        c.ob(self.ctx, 'effect', '%s' % name, ok, e, fr, '%s is caused by code %s' % (name, what), name)

    def op(self, c, s, name, obj, args, e, fr):
        if name in EFFECT:
            self.effect(c, s, name, e, fr)
            if name in SOURCE:
                tag, _ = c.path_tag(s, args[0])
                grp = c.command(s)[0] if c.command(s) else ''
                ok = tag in SOURCE[name] and str(tag).startswith(grp + ':')
                c.ob(self.ctx, 'source', 'path of ' + name, ok, e, fr, 'the path given to %s was received with code %s' % (name, tag), name)
        if name == 'release' and self.close(c, s) is KNOWN:
            self.reached.add(('end', ('API', 0xff)))

    def run(self, c, s, job, codec, stub, e, fr):
        I = c.I
        t = I.load(s, mk('fld', codec, 'job_type'))
        names = {v[1]: v[0] for v in I.P.enum('HZ_CodecJob::CodecJobType')['vals']}
        name = 'job %s' % names.get(t.a[0], '?') if t.op == 'c' else 'job ?'
        if name not in EFFECT:
            c.ob(self.ctx, 'effect', 'job', False, e, fr, 'a job of unknown type is started', 'job')
            return
        self.effect(c, s, name, e, fr)
        grp = c.command(s)[0] if c.command(s) else ''
        a = I.load(s, mk('fld', codec, 'mstate_addr'))
        if a.op == 'some':
            tag, _ = c.path_tag(s, a)
            c.ob(self.ctx, 'source', 'model-state address of a job', tag == grp + ':1', e, fr, 'the model-state address of the job was received with code %s' % tag, 'mstate_addr')
            self.reached.add(('mstate address', (grp, 1)))
        x = I.load(s, mk('fld', codec, 'algorithm'))
        while x.op in ('box', 'trunc'):
            x = next(y for y in x.a if isinstance(y, T))
        tag = c.tags.get(x)
        if tag is not None:
            c.ob(self.ctx, 'source', 'algorithm of a job', tag == grp + ':4', e, fr, 'the algorithm of the job was received with code %s' % tag, 'algorithm')
            self.reached.add(('algorithm', (grp, 4)))
        blob = I.deref(I.lib.unwrap(s, I.load(s, mk('fld', codec, 'blob'))))
        m = s.mem.get(mk('fld', blob, 'mstate'))
        if m is not None and m.op == 'ptr':
            d = s.mem.get(mk('fld', m.a[0], 'data'))
            if d is not None and d.op == 'ptr':
                tag, _ = c.path_tag(s, d)
                c.ob(self.ctx, 'source', 'model state of a job', tag == 'DECODE:6', e, fr, 'the model state of the job was received with code %s' % tag, 'mstate')
                self.reached.add(('model state', ('DECODE', 6)))

    def send(self, c, s, obj, v, L, n, size, e, fr):
        cm = c.command(s)
        if cm is None:
            return
        self.effect(c, s, 'data', e, fr)
        if len(cm[1]) == 1 and (cm[0], cm[1][0]) in SENT:
            want = SENT[cm[0], cm[1][0]]
            c.ob(self.ctx, 'source', 'reply of %s' % want, v is not None and want in show(v), e, fr, 'the reply is %s, not the result of %s' % (show(v) if v is not None else '?', want), want)
        if s.mem.get(g('pb')) is ONE:
            self.reached.add(('piggyback', (cm[0], proto.PIGGY.get(cm[0]))))

    def success(self, c, s, obj, e, fr):
        if c.command(s) is not None:
            self.effect(c, s, 'success', e, fr)

    def error(self, c, s, obj, e, fr):
        s.mem[g('err')] = ONE
        cm = c.command(s)
        if cm is not None and (s.mem.get(g('cls')) is UNKNOWN or self.classify(c, s) is UNKNOWN):
            self.reached.add(('refused', (cm[0], -1)))

    def closing(self, c, s):
        if g('w') not in s.mem:
            return
        k = s.mem.get(g('cls'))
        if k is None or k is MIXED:
            k = self.classify(c, s)
        if k is UNKNOWN and s.mem.get(g('err')) is ONE:
            k = KNOWN
        if k is KNOWN:
            s.mem.pop(g('err'), None)
        s.mem[g('cls')] = k
        if c.command(s)[0] == 'API':
            s.mem[g('close')] = self.close(c, s)

    def classify(self, c, s):
        cm = c.command(s)
        own = GROUPS.get(cm[0], ())
        n = sum(1 for v in cm[1] if v in own)
        return KNOWN if n == len(cm[1]) else UNKNOWN if n == 0 else MIXED

    def unknown(self, c, s, e, fr, what):
        cm = c.command(s)
        if cm is None:
            return
        k = s.mem.get(g('cls'))
        seen = k is None
        if seen or k is MIXED:
            k = self.classify(c, s)
        c.ob(self.ctx, 'unknown', 'codes of %s, %s' % (cm[0], what), k is KNOWN or s.mem.get(g('err')) is ONE, e, fr,
             'a code which is not one of %s is accepted without an error' % cm[0], cm[0])

    def word(self, c, s, obj, group, e, fr):
        self.unknown(c, s, e, fr, 'next command')
        cm = c.command(s)
        s.mem.pop(g('err'), None)
        s.mem.pop(g('cls'), None)
        s.mem.pop(g('close'), None)
        if cm is None:
            c.ob(self.ctx, 'group', group, group == 'API', e, fr, 'the first command is read as one of %s' % group, group)
            return
        if group in ('STREAM', 'QUERY') and cm[0] == 'API':
            ok = cm[1] == [CODES['API'][group]]
            self.reached.add(('group', ('API', CODES['API'][group])))
        elif group in SUB.values() and cm[0] == 'STREAM':
            ok = len(cm[1]) == 1 and SUB.get(cm[1][0]) == group
            self.reached.add(('group', ('STREAM', cm[1][0])))
        else:
            ok = group == cm[0]
        c.ob(self.ctx, 'group', group, ok, e, fr, 'a command of %s is read after code %s of %s' % (group, cm[1] if len(cm[1]) < 6 else 'any', cm[0]), group)

    def ready(self, c, s, fr):
        e = {'l': fr.fn.line}
        self.unknown(c, s, e, fr, 'end of the request')
        k = self.close(c, s)
        if k is not UNKNOWN:
            c.ob(self.ctx, 'effect', 'close', s.mem.get(g('err')) is ONE and k is MIXED, e, fr, 'the session goes on after CLOSE', 'close')
        s.mem.pop(g('err'), None)
        s.mem.pop(g('close'), None)
        s.mem.pop(g('cls'), None)

    def done(self, c, outs):
        f = c.I.P.one('hzapi::ApiInstance::start')
        need = [(n, k) for n, ks in EFFECT.items() for k in sorted(ks) if (n, k) not in MAY]
        need += [('end', ('API', 0xff)), ('mstate address', ('ENCODE', 1)), ('mstate address', ('DECODE', 1)), ('algorithm', ('ENCODE', 4)), ('algorithm', ('DECODE', 4)),
                 ('model state', ('DECODE', 6)), ('group', ('API', 0)), ('group', ('API', 1))] + [('group', ('STREAM', k)) for k in SUB]
        need += [('piggyback', (k, v)) for k, v in proto.PIGGY.items()] + [('refused', (k, -1)) for k in ('API', 'STREAM', 'ENCODE', 'DECODE', 'WRITE_MSTATE', 'READ_MSTATE', 'QUERY')]
        for n, k in need:
            self.ctx.ob('dispatch', '%s:%s %s' % (k[0], k[1] if k[1] >= 0 else 'unknown', n), (n, k) in self.reached, f.rel, f.q, f.line,
                        'code %s of %s does not lead to: %s' % (k[1] if k[1] >= 0 else '(unknown)', k[0], n), [], '%s:%s' % (k[0], k[1]))


def run(ctx):
    ctx.rule('effect', 'an effect is caused only by the codes it is published for', 25)
    ctx.rule('dispatch', 'every published code leads to its effect', 45)
    ctx.rule('source', 'what an operation is given was received with the code published for it', 14)
    ctx.rule('group', 'commands are read as members of the group that was chosen', 7)
    ctx.rule('unknown', 'a code outside the group is refused with an error', 7)
    ctx.rule('values', 'codes are distinct and keep their published values', 30)
    cl, I, outs = proto.decide(ctx, M(ctx))
    for q, en in sorted(I.P.enums.items()):
        if not en.get('relfile', '').endswith('network/api/api_enums.h'):
            continue
        vals = [v[1] for v in en['vals']]
        ctx.ob('values', q, len(set(vals)) == len(vals), en['relfile'], q, en['l'], 'two codes of %s have the same value' % q, [], q)
        grp = q.split('::')[-1].replace('_CTL', '')
        for n, v, l in en['vals']:
            want = CODES.get(grp, {}).get(n.replace(grp + '_CTL_', ''))
            if want is not None:
                ctx.ob('values', n, v == want, en['relfile'], q, l, '%s is %d; published: %d' % (n, v, want), [], n)
