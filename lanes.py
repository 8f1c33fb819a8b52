"""Which lanes decide each property."""
import pylanes


class Lane:
    def __init__(self, name, src='', cc='gcc11', std='17', cfg='def', san='asan', opt='O0', defs=(), args=(), libs=(),
                 optional=False, thorough_only=False, scale=1, cpu=200, wall=400, runner=None, data=None, group=None, valgrind=False):
        self.name, self.src, self.cc, self.std, self.cfg, self.san, self.opt = name, src, cc, std, cfg, san, opt
        self.defs, self.args, self.libs = list(defs), list(args), list(libs)
        self.optional, self.thorough_only, self.scale = optional, thorough_only, scale
        self.cpu, self.wall, self.runner, self.data = cpu, wall, runner, data
        self.group, self.valgrind = group, valgrind
        self.salt = 0


class Spec:
    def __init__(self, lanes, rule, assumptions=(), compare=None, same_seed=False, technique=None, note=None, only=()):
        self.lanes, self.rule, self.assumptions = lanes, rule, list(assumptions)
        self.technique = technique or 'runtime monitoring against a reference model under ASan and UBSan'
        self.note = note or (
            'Held on every execution produced: ' + rule + '. Trusts the reference model of the harness and the compilers; '
            'says nothing of what the workload does not reach.')
        self.compare, self.same_seed, self.only = compare, same_seed, only


def same_transcripts(results, ctx, extra):
    """The lanes of a group are runs which must be the same: compares what was observed in them"""
    groups, observed, lines = {}, 0, 0
    for r in results:
        if r.lane.group:
            groups.setdefault(r.lane.group, []).append(r)
    for name, rs in sorted(groups.items()):
        first = rs[0]
        for r in rs[1:]:
            a, b = [[x.split(' ', 3) for x in q.transcript or []] for q in (first, r)]
            for x, y in zip(a, b):
                lines += 1
                if x[:2] != y[:2]:
                    yield 'difference', '%s and %s differ before observation %s: %s / %s' % (
                        first.lane.name, r.lane.name, x[0], ' '.join(x[2:])[:300], ' '.join(y[2:])[:300])
                    break
            else:
                if len(a) != len(b) or first.end != r.end:
                    yield 'difference', '%s ends with %s after %d lines, %s with %s after %d lines, last of which: %s' % (
                        first.lane.name, first.end, len(a), r.lane.name, r.end, len(b), ' '.join((a if len(a) > len(b) else b or [['']])[-1])[:300])
        observed += int((first.transcript or ['0'])[-1].split(' ')[0] or 0) * len(rs)
    extra['groups'] = {k: len(v) for k, v in groups.items()}
    extra['observations_compared'] = observed
    extra['hashes_compared'] = lines


ASSUMPTIONS = [
    'only the executions that were produced are judged: held on these, not proved',
    'x86-64 Linux, little-endian platform with a two\'s complement signed representation',
]

SPECS = {}


def four(prefix, src, **kw):
    """The four configurations users build with, under AddressSanitizer and UndefinedBehaviorSanitizer"""
    return [Lane('%s-%s-%s' % (prefix, std, cfg), src, std=std, cfg=cfg, **kw) for std in ('11', '17') for cfg in ('def', 'le')]


SPECS['C01'] = Spec(
    four('encode', 'codec.cpp', defs=['ENCODE']) + [
        Lane('encode-optimized', 'codec.cpp', opt='O2', san='none', std='11', cfg='def', defs=['ENCODE']),
        Lane('encode-optimized-le', 'codec.cpp', opt='O2', san='none', std='17', cfg='le', defs=['ENCODE']),
        Lane('encode-clang', 'codec.cpp', cc='clang', san='ubsan', opt='O1', std='17', cfg='le', defs=['ENCODE'], optional=True),
        Lane('encode-clang-def', 'codec.cpp', cc='clang', san='asan', std='11', cfg='def', defs=['ENCODE'], optional=True, thorough_only=True),
        Lane('encode-e', 'codec.cpp', std='17', cfg='e', defs=['ENCODE'], thorough_only=True),
        Lane('encode-s', 'codec.cpp', std='11', cfg='s', defs=['ENCODE'], thorough_only=True),
    ],
    'every value of the 8 and 16 bit types, and boundary-biased random values of the wider ones, of 15 integer types x 8 '
    'formats are stored through 5 paths and the bytes compared with an arithmetic reference; distinct = distinct '
    '(type, format, value) in the largest lane')
SPECS['C02'] = Spec(
    four('decode', 'codec.cpp', defs=['DECODE']) + [
        Lane('decode-optimized', 'codec.cpp', opt='O2', san='none', std='11', cfg='def', defs=['DECODE']),
        Lane('decode-optimized-le', 'codec.cpp', opt='O2', san='none', std='17', cfg='le', defs=['DECODE']),
        Lane('decode-clang', 'codec.cpp', cc='clang', san='ubsan', opt='O1', std='17', cfg='le', defs=['DECODE'], optional=True),
        Lane('decode-clang-def', 'codec.cpp', cc='clang', san='asan', std='11', cfg='def', defs=['DECODE'], optional=True, thorough_only=True),
        Lane('decode-e', 'codec.cpp', std='17', cfg='e', defs=['DECODE'], thorough_only=True),
        Lane('decode-s', 'codec.cpp', std='11', cfg='s', defs=['DECODE'], thorough_only=True),
    ],
    'every byte sequence of the 8 and 16 bit types, and random, single-bit and edge-byte sequences of the wider ones, of '
    '15 integer types x 8 formats are read through 6 paths and compared with an arithmetic reference, then re-encoded; '
    'distinct = distinct (type, format, bytes) in the largest lane')


# --- dispatchers (disp.cpp)

def world(name, std, cfg, end, sgn, *defs, **kw):
    lane = name.lower().replace('<', '').replace('>', '') + '-' + std + '-' + cfg
    d = ['WORLD=%s' % name, 'END=%s' % end, 'SGN=%s' % sgn] + list(defs)
    return dict(name=lane + kw.pop('suffix', ''), src='disp.cpp', std=std, cfg=cfg, defs=d, **kw)


def disp(prop, extra=(), reply=False, big=True, giant=False, scale=4, slow=1):
    """The same workload over keyrings of all sorts. extra: definitions of all lanes"""
    L, B = 'LITTLE', 'BIG'
    SM, OC, TC, OB = 'SIGNED_MAGNITUDE', 'ONES_COMPLEMENT', 'TWOS_COMPLEMENT', 'OFFSET_BINARY'
    big_defs = ['NO_ANY', 'NO_REPLACE', 'KINDS=1'] + (['NO_BUFFERED'] if prop == 'C07' else ['NO_PLAIN'])
    if prop == 'C14':
        big_defs.remove('NO_REPLACE')
    todo = [
        world('Small', '11', 'def', L, TC), world('Small', '17', 'le', B, SM),
        world('WideReturn', '17', 'def', B, OC), world('WideArg', '11', 'le', L, OB),
        world('Users', '17', 'le', B, TC), world('Users', '11', 'def', L, SM),
        world('AllVoid', '11', 'def', B, OB), world('Refs', '17', 'def', L, OC),
        world('Lone', '17', 'le', L, SM), world('Odd', '11', 'le', B, TC),
        world('Huge', '17', 'def', B, OB, scale=max(1, scale // 4)),
        # deeper
        world('Small', '17', 'e', L, OC, thorough_only=True), world('Small', '11', 's', B, OB, thorough_only=True),
        world('WideReturn', '11', 'le', L, TC, thorough_only=True), world('WideArg', '17', 'def', B, SM, thorough_only=True),
        world('Refs', '11', 'le', B, OB, thorough_only=True), world('AllVoid', '17', 'le', L, TC, thorough_only=True),
        world('Odd', '17', 'def', L, SM, thorough_only=True), world('Huge', '11', 'le', L, SM, scale=max(1, scale // 4)),
        world('Small', '17', 'def', L, OB, suffix='-optimized', opt='O2', san='none'),
        world('Users', '11', 'le', B, OC, suffix='-optimized', opt='O2', san='none', thorough_only=True),
        world('WideReturn', '17', 'le', B, OB, suffix='-clang', cc='clang', opt='O1', optional=True, thorough_only=True),
        world('Refs', '11', 'def', B, TC, suffix='-clang', cc='clang', opt='O1', optional=True, thorough_only=True),
    ]
    if big:
        todo += [world('Big<300>' if prop == 'C14' else 'Big<256>', '17', 'def', B, TC, *big_defs, scale=max(1, scale // 2)),
                 world('Big<255>', '17', 'le', L, OC, *big_defs, scale=max(1, scale // 2), thorough_only=True),
                 world('Big<300>', '17', 'le', L, TC, *big_defs, scale=max(1, scale // 2), thorough_only=True),
                 world('Big<300>', '11', 'def', B, OB, *big_defs, scale=max(1, scale // 2), thorough_only=True)]
    if prop in ('C06', 'C10', 'C12'):
        todo += [world('Big<300>', '17', 'le', L, TC, 'NO_ANY', 'NO_REPLACE', 'KINDS=1', 'NO_BUFFERED', scale=max(1, scale // 2), suffix='-plain')]
    todo += [world('Giant', '17', 'def', B, TC, 'GIANT', opt='O1', scale=1, thorough_only=not giant)]
    lanes = []
    for kw in todo:
        kw['defs'] = kw['defs'] + [d for d in extra if d not in kw['defs']]
        kw.setdefault('scale', scale)
        kw['scale'] = max(1, kw['scale'] // slow)
        if kw.get('thorough_only'):
            kw['scale'] = 1
        lanes.append(Lane(**kw))
    return lanes


def disp_spec(prop, what, **kw):
    return Spec(disp(prop, **kw),
                what + '; over keyrings of 11 sorts (all-void, a single callback, wide requests, wide responses, 256 '
                'callbacks, references, arrays, booleans, user extensions, requests over 256 bytes), both storage '
                'policies and several formats; distinct = distinct (dispatcher kind, specification state, operation, '
                'outcome) in the lane with the most')


SPECS['C06'] = disp_spec('C06', 'random call sequences from keys to every kind of dispatcher and back: the invocation, its '
                         'arguments and the decoded result are compared with the call', extra=['NO_REPLACE'], scale=3)
SPECS['C07'] = disp_spec('C07', 'random concatenations of requests and unknown indices are given to plain dispatchers, whose '
                         'pulls, output, returned index and invocations are judged one by one', extra=['NO_REPLACE', 'NO_BUFFERED'], giant=True, scale=12)
SPECS['C08'] = disp_spec('C08', 'random streams (requests, unknown indices, noise, truncations) are fed by random mixes of put, '
                         'read_from, << and operator(), and a framing model judges every status, invocation and pull',
                         extra=['NO_REPLACE', 'NO_PLAIN'], scale=3)
SPECS['C09'] = disp_spec('C09', 'random mixes of gets, full writes and reception, judged byte by byte by a model of the pending response',
                         extra=['NO_REPLACE', 'NO_PLAIN'], scale=4)
SPECS['C10'] = disp_spec('C10', 'hostile streams into dispatchers whose buffers are exact-size heap blocks under AddressSanitizer, and '
                         'advertised sizes compared with the wire sizes of the reference model', extra=['NO_REPLACE'], giant=True, scale=3)
SPECS['C11'] = disp_spec('C11', 'every interleaving (or a sample of them, when too many) of the bytes of a request with the reading of the '
                         'previous response, for all pairs of callbacks, plus random histories', extra=['NO_REPLACE', 'NO_PLAIN'], scale=1)
SPECS['C12'] = disp_spec('C12', 'callbacks, sources and sinks throw at random points of random histories, and the model judges what '
                         'is propagated, kept, resumed and output', extra=['NO_REPLACE'], scale=3)
SPECS['C14'] = disp_spec('C14', 'random replacements by functions and functors at any moment of random histories of plain and buffered '
                         'dispatchers and of sets of sibling dispatchers; the model tracks which variant must run', scale=3)

L13 = [dict(std='11', cfg='def', END='LITTLE', SGN='TWOS_COMPLEMENT'), dict(std='17', cfg='le', END='BIG', SGN='OFFSET_BINARY'),
       dict(std='17', cfg='def', END='LITTLE', SGN='SIGNED_MAGNITUDE')]
SPECS['C13'] = Spec(
    [Lane('answers-%s-%s' % (x['std'], x['cfg']), 'disp.cpp', std=x['std'], cfg=x['cfg'],
          defs=['WORLD=Answers', 'WITH_REPLY', 'NO_REPLACE', 'NO_PLAIN', 'END=' + x['END'], 'SGN=' + x['SGN']]) for x in L13] + [
        Lane('users-17-def', 'disp.cpp', std='17', cfg='def', defs=['WORLD=Users', 'WITH_REPLY', 'NO_REPLACE', 'NO_PLAIN', 'END=BIG'], scale=1),
        Lane('widereturn-11-le', 'disp.cpp', std='11', cfg='le', defs=['WORLD=WideReturn', 'WITH_REPLY', 'NO_REPLACE', 'NO_PLAIN', 'SGN=ONES_COMPLEMENT'], scale=1),
        Lane('allvoid-17-le', 'disp.cpp', std='17', cfg='le', defs=['WORLD=AllVoid', 'WITH_REPLY', 'NO_REPLACE', 'NO_PLAIN'], scale=1),
        Lane('answers-optimized', 'disp.cpp', std='17', cfg='def', opt='O2', san='none', defs=['WORLD=Answers', 'WITH_REPLY', 'NO_REPLACE', 'NO_PLAIN', 'END=BIG']),
        Lane('answers-clang', 'disp.cpp', std='17', cfg='le', cc='clang', opt='O1', defs=['WORLD=Answers', 'WITH_REPLY', 'NO_REPLACE', 'NO_PLAIN', 'END=BIG'], optional=True, thorough_only=True),
    ],
    'random histories with replies to 11 keys (buffers of 1 to 40 bytes, keyrings of 9 and of 260 callbacks), at any point of '
    'the reading of responses of 0 to 40 bytes; the bytes sent, the result and what is left are compared with the model; '
    'distinct = distinct (dispatcher kind, specification state, operation, outcome) in the lane with the most')


# --- keys (keys.cpp)

def keys(world, std, cfg, *defs, **kw):
    lane = world.lower().replace('<', '').replace('>', '') + '-' + std + '-' + cfg + kw.pop('suffix', '')
    return Lane(lane, 'keys.cpp', std=std, cfg=cfg, defs=['WORLD=' + world] + list(defs), **kw)


K5, K17 = ['NO_DISPATCHERS', 'NO_HOOKS'], ['NO_DISPATCHERS']
SPECS['C05'] = Spec([
    keys('Small', '11', 'def', *K5), keys('Small', '17', 'le', *K5), keys('Users', '17', 'def', *K5), keys('Users', '11', 'le', *K5),
    keys('Refs', '17', 'le', *K5), keys('Refs', '11', 'def', *K5), keys('WideArg', '11', 'le', *K5), keys('Odd', '17', 'def', *K5),
    keys('Lone', '11', 'def', *K5), keys('AllVoid', '11', 'def', *K5), keys('Huge', '17', 'le', *K5, scale=1), keys('Huge', '11', 'def', *K5, scale=1),
    keys('Big<255>', '17', 'def', *K5, 'TWO_FORMATS', scale=4), keys('Big<256>', '17', 'le', *K5, 'TWO_FORMATS', scale=4),
    keys('Big<300>', '17', 'def', *K5, 'TWO_FORMATS', scale=4),
    keys('Small', '11', 'def', 'NO_DISPATCHERS', 'FORMS', suffix='-forms'), keys('Small', '17', 'le', 'NO_DISPATCHERS', 'FORMS', suffix='-forms'),
    keys('Small', '17', 'def', *K5, opt='O2', san='none', suffix='-optimized'),
    keys('Big<256>', '11', 'def', *K5, thorough_only=True), keys('Big<300>', '11', 'le', *K5, thorough_only=True),
    keys('Users', '17', 'le', *K5, cc='clang', opt='O1', suffix='-clang', optional=True, thorough_only=True),
    keys('Odd', '11', 's', *K5, thorough_only=True), keys('Users', '11', 'e', *K5, thorough_only=True),
    keys('Giant', '17', 'def', *K5, 'TWO_FORMATS', opt='O1', thorough_only=True),
], 'for every callback of keyrings of 1 to 300 callbacks in the 8 formats, boundary-biased random arguments are given to the '
   'key, and the bytes sent through 3 forms, the advertised length and the index are compared with a reference; distinct = '
   'distinct packets in the lane with the most')
SPECS['C17'] = Spec([
    keys('Small', '11', 'def', *K17), keys('Small', '17', 'le', *K17), keys('Users', '17', 'def', *K17), keys('Refs', '17', 'le', *K17),
    keys('Users', '11', 'le', *K17, 'TWO_FORMATS', scale=3), keys('Refs', '11', 'def', *K17, 'TWO_FORMATS', scale=3),
    keys('WideReturn', '17', 'def', *K17), keys('Odd', '11', 'le', *K17, 'TWO_FORMATS', scale=3), keys('AllVoid', '17', 'le', *K17, 'TWO_FORMATS'),
    keys('Huge', '17', 'def', *K17, 'TWO_FORMATS'),
    keys('Big<256>', '17', 'le', *K17, 'TWO_FORMATS', scale=3),
] + [keys(w, '17', c, 'END_TO_END', 'NO_ANY', 'NO_BUFFERED', 'NO_REPLACE', 'END=' + e, 'SGN=' + s, suffix='-end-to-end')
     for w, c, e, s in (('Small', 'def', 'BIG', 'ONES_COMPLEMENT'), ('Users', 'le', 'BIG', 'SIGNED_MAGNITUDE'), ('Refs', 'def', 'LITTLE', 'OFFSET_BINARY'))] + [
    keys('Small', '11', 'le', *K17, opt='O2', san='none', suffix='-optimized'),
    keys('Users', '17', 'le', *K17, cc='clang', opt='O1', suffix='-clang', optional=True, thorough_only=True),
    keys('Refs', '11', 'e', *K17, thorough_only=True), keys('WideReturn', '11', 's', *K17, thorough_only=True),
    keys('Big<300>', '11', 'def', *K17, 'TWO_FORMATS', thorough_only=True),
], 'streams of responses (encoded values and arbitrary bytes, followed by bytes of the next packet) are given to hooks made in 7 '
   'ways and to read_from; pulls, invocations and values are compared with a reference, also on responses made by real '
   'dispatchers; distinct = distinct (stream, hook form, key) in the lane with the most')


# --- tuples and views (layout.cpp)

def layout(lst, std, cfg, *defs, **kw):
    kw.setdefault('scale', 10)
    name = lst.lower() + '-' + std + '-' + cfg + kw.pop('suffix', '')
    return Lane(name, 'layout.cpp', std=std, cfg=cfg, defs=['LIST=' + lst] + list(defs), **kw)


SPECS['C03'] = Spec([
    layout(l, s, c, 'NO_INVOKE', *d) for l, s, c, d in (
        ('Basic', '11', 'def', ['MORE']), ('Basic', '17', 'le', []), ('Arrays', '17', 'def', ['MORE']), ('Arrays', '11', 'le', []),
        ('Plain', '17', 'le', []), ('Plain', '11', 'def', []), ('User', '11', 'def', ['MORE']), ('User2', '17', 'le', []),
        ('Many', '17', 'def', []), ('One', '11', 'le', ['MORE']), ('UserAlone', '11', 'def', []))] + [
    layout('Long', '11', 'def', 'NO_INVOKE', scale=2), layout('Long', '17', 'le', 'NO_INVOKE', scale=2),
    layout('Basic', '17', 'def', 'FORMS', suffix='-forms'), layout('Basic', '11', 'le', 'FORMS', suffix='-forms'),
    layout('Basic', '17', 'def', 'NO_INVOKE', suffix='-optimized', opt='O2', san='none'),
    layout('User', '17', 'le', 'NO_INVOKE', 'MORE', thorough_only=True), layout('Arrays', '11', 'e', 'NO_INVOKE', 'MORE', thorough_only=True),
    layout('Many', '11', 's', 'NO_INVOKE', 'MORE', thorough_only=True), layout('Plain', '17', 'def', 'NO_INVOKE', 'MORE', thorough_only=True),
    layout('User2', '11', 'def', 'NO_INVOKE', 'MORE', suffix='-clang', cc='clang', optional=True, thorough_only=True),
], 'tuples of 8 lists of types in the 8 formats, and views on them through up to 11 sorts of ranges, are constructed, set and '
   'overwritten at random; the whole memory around them is compared with a shadow copy after every operation, every element '
   'with the reference decoding, and a tracking iterator tells what was dereferenced; distinct = distinct contents in the lane '
   'with the most')
SPECS['C04'] = Spec([
    layout(l, s, c, 'ASSIGN', 'NO_INVOKE', suffix='-assign') for l, s, c in (
        ('Basic', '11', 'def'), ('Basic', '17', 'le'), ('User', '17', 'def'), ('User2', '11', 'le'), ('Arrays', '11', 'def'))] + [
    layout(l, s, c) for l, s, c in (
        ('Basic', '11', 'le'), ('Arrays', '17', 'le'), ('Plain', '11', 'def'), ('Plain', '17', 'le'), ('User', '11', 'def'), ('User2', '17', 'def'))] + [
    layout('Long', '17', 'def', scale=2), layout('Long', '11', 'le', 'ASSIGN', 'NO_INVOKE', suffix='-assign', scale=2),
    layout('Basic', '17', 'le', 'FORMS', suffix='-forms'), layout('Basic', '11', 'def', 'FORMS', suffix='-forms'),
    layout('Basic', '17', 'def', 'ASSIGN', 'NO_INVOKE', suffix='-assign-optimized', opt='O2', san='none'),
    layout('Many', '17', 'def', 'ASSIGN', 'NO_INVOKE', suffix='-assign', thorough_only=True), layout('Many', '11', 'le', thorough_only=True),
    layout('Basic', '17', 's', 'MORE', thorough_only=True), layout('User', '17', 'e', 'MORE', thorough_only=True),
    layout('Arrays', '17', 'le', 'ASSIGN', 'NO_INVOKE', suffix='-assign-clang', cc='clang', optional=True, thorough_only=True),
], 'assignments between tuples and views of different formats (16 ordered pairs x 4 pairs of kinds, and views overlapping in any way), and invocations by 7 '
   'sorts of functors on random contents; bytes, number of calls, arguments and results are compared with the reference; '
   'distinct = distinct contents in the lane with the most')
SPECS['C26'] = Spec([
    layout(l, s, c, *d) for l, s, c, d in (('User', '11', 'le', ['MORE']), ('User2', '17', 'def', ['MORE']), ('UserAlone', '17', 'le', ['MORE']))] + [
    layout('User', '17', 'le', 'ASSIGN', 'NO_INVOKE', suffix='-assign'), layout('User2', '11', 'def', 'ASSIGN', 'NO_INVOKE', suffix='-assign'),
    Lane(**world('Users', '17', 'def', 'BIG', 'SIGNED_MAGNITUDE', scale=3)), Lane(**world('Users', '11', 'le', 'LITTLE', 'TWOS_COMPLEMENT', scale=3)),
    Lane(**world('Users2', '17', 'le', 'BIG', 'OFFSET_BINARY', scale=3)), Lane(**world('Users2', '11', 'def', 'LITTLE', 'ONES_COMPLEMENT', scale=3)),
    keys('Users', '17', 'le', *K17, suffix='-keys'), keys('Users2', '11', 'def', *K17, suffix='-keys'),
    layout('User', '17', 'def', suffix='-optimized', opt='O2', san='none'),
    Lane(**world('Users', '17', 'e', 'BIG', 'ONES_COMPLEMENT', thorough_only=True)), Lane(**world('Users2', '17', 's', 'LITTLE', 'SIGNED_MAGNITUDE', thorough_only=True)),
    Lane(**world('Users2', '17', 'def', 'BIG', 'TWOS_COMPLEMENT', cc='clang', opt='O1', suffix='-clang', optional=True, thorough_only=True)),
], '9 types with an extension (padded, nested, shrinking, growing, holding arrays, owning memory, enumerations, reordered '
   'fields) in tuples, views over 11 sorts of ranges, keys, hooks and dispatchers of every kind and policy, judged by the same '
   'shadow memory, reference codec and dispatcher model as the other types; distinct = distinct contents in the lane with the most')
for _p in ('C05', 'C17'):
    SPECS[_p].lanes.append(keys('Users2', '17', 'def', *(K5 if _p == 'C05' else K17), 'TWO_FORMATS', scale=3))


# --- byte streams (streams.cpp)

def streams(part, std, cfg, end, sgn, **kw):
    kw.setdefault('scale', 60)
    return Lane('%s-%s-%s%s' % ({'K': 'keys', 'P': 'plain', 'Q': 'call', 'B': 'buffered'}[part], std, cfg, kw.pop('suffix', '')), 'streams.cpp',
                std=std, cfg=cfg, defs=['PART_' + part, 'END=' + end, 'SGN=' + sgn], **kw)


SPECS['C25'] = Spec([
    streams('K', '11', 'def', 'BIG', 'ONES_COMPLEMENT'), streams('K', '17', 'le', 'LITTLE', 'TWOS_COMPLEMENT'),
    streams('P', '11', 'def', 'LITTLE', 'SIGNED_MAGNITUDE'), streams('P', '17', 'le', 'BIG', 'OFFSET_BINARY'),
    streams('Q', '11', 'def', 'BIG', 'TWOS_COMPLEMENT'), streams('Q', '17', 'le', 'LITTLE', 'ONES_COMPLEMENT'),
    streams('B', '11', 'le', 'LITTLE', 'OFFSET_BINARY'), streams('B', '17', 'def', 'BIG', 'SIGNED_MAGNITUDE'),
] + [streams(p, '17', c, 'BIG', 'TWOS_COMPLEMENT', suffix='-optimized', opt='O2', san='none', thorough_only=p != 'B')
     for p, c in (('K', 'def'), ('P', 'le'), ('Q', 'def'), ('B', 'le'))] + [
    streams(p, '17', c, 'BIG', 'OFFSET_BINARY', suffix='-clang', cc='clang', optional=True, thorough_only=True)
    for p, c in (('K', 'le'), ('P', 'def'), ('B', 'le'))] + [
    streams('K', '11', 'e', 'BIG', 'OFFSET_BINARY', thorough_only=True), streams('B', '17', 's', 'LITTLE', 'TWOS_COMPLEMENT', thorough_only=True),
], 'random calls are sent, received, answered and replied through 19 forms of byte sources and 20 forms of sinks (callables of '
   '9 sorts, pointers to exact blocks, container, reverse, single-pass and stream iterators, inserters) for keys, messages, both '
   'actions, plain, buffered and user-defined dispatchers; bytes, results, positions and numbers of increments are compared; '
   'distinct = distinct (operation, callback, form) in the lane with the most')


# --- owned callbacks (life.cpp)

def life(kind, std, cfg, end, sgn, **kw):
    kw.setdefault('scale', 12)
    return Lane('%s-%s-%s%s' % (('plain', 'single', 'double', 'custom')[kind], std, cfg, kw.pop('suffix', '')), 'life.cpp', std=std, cfg=cfg,
                defs=['KIND=%d' % kind, 'END=' + end, 'SGN=' + sgn], **kw)


SPECS['C15'] = Spec([
    life(0, '11', 'def', 'LITTLE', 'TWOS_COMPLEMENT'), life(0, '17', 'le', 'BIG', 'OFFSET_BINARY'),
    life(1, '17', 'def', 'BIG', 'SIGNED_MAGNITUDE'), life(1, '11', 'le', 'LITTLE', 'TWOS_COMPLEMENT'),
    life(2, '11', 'def', 'BIG', 'TWOS_COMPLEMENT'), life(2, '17', 'le', 'LITTLE', 'ONES_COMPLEMENT'),
    life(3, '17', 'def', 'LITTLE', 'OFFSET_BINARY'), life(3, '11', 'le', 'BIG', 'TWOS_COMPLEMENT'),
    life(0, '17', 'def', 'BIG', 'TWOS_COMPLEMENT', suffix='-optimized', opt='O2', san='none', scale=40),
    life(2, '11', 'def', 'LITTLE', 'TWOS_COMPLEMENT', suffix='-clang', cc='clang', opt='O1', optional=True, thorough_only=True),
    life(1, '17', 'e', 'BIG', 'ONES_COMPLEMENT', thorough_only=True), life(3, '17', 's', 'LITTLE', 'SIGNED_MAGNITUDE', thorough_only=True),
], 'functors of 9 sorts (copyable, move-only, throwing when copied, const or lvalue-only callable, lambdas, std::function) are given in '
   'every way to actions, hooks and 4 kinds of dispatchers, which are moved, swapped, put in vectors, exchanged, replaced and '
   'destroyed at random, also inside of invocations, which throw at random; a census tracks every functor object from its '
   'construction to its destruction, its state and its copies after every operation; distinct = distinct histories of operations '
   'and populations in the lane with the most')


# --- allocations

AL = ['ALLOC_MONITOR', 'ONLY_KIND="allocation"']


def al_world(name, std, cfg, *defs, **kw):
    kw.setdefault('scale', 2)
    kw.setdefault('args', ['--prop', 'C06+C08+C09+C12' + ('' if 'NO_REPLACE' in defs else '+C14')])
    return Lane(**world(name, std, cfg, 'BIG', 'OFFSET_BINARY', *AL, *defs, san='none', **kw))


SPECS['C16'] = Spec([
    al_world('Small', '11', 'def'), al_world('Small', '17', 'le', suffix='-optimized', opt='O2'), al_world('WideReturn', '17', 'le'),
    al_world('WideArg', '17', 'def'), al_world('Users', '11', 'le'), al_world('Refs', '17', 'def'), al_world('AllVoid', '11', 'le'),
    al_world('Odd', '17', 'le'), al_world('Huge', '11', 'def', scale=1), al_world('Answers', '17', 'def', 'WITH_REPLY', 'NO_PLAIN', 'NO_REPLACE', args=['--prop', 'C13+C08+C09+C12']),
    keys('Small', '17', 'def', *K17, *AL, san='none', suffix='-keys'), keys('Users', '11', 'le', *K17, *AL, san='none', suffix='-keys'),
    keys('Refs', '17', 'le', *K17, *AL, san='none', suffix='-keys'), keys('Small', '11', 'def', 'NO_DISPATCHERS', 'FORMS', *AL, san='none', suffix='-forms'),
    layout('Basic', '11', 'le', *AL, 'MORE', san='none'), layout('Plain', '17', 'def', *AL, san='none'), layout('User', '17', 'le', *AL, san='none'),
    layout('Arrays', '17', 'def', *AL, san='none', suffix='-optimized', opt='O2'),
    layout('Basic', '17', 'def', 'ASSIGN', 'NO_INVOKE', *AL, san='none', suffix='-assign'), layout('User', '11', 'def', 'ASSIGN', 'NO_INVOKE', *AL, san='none', suffix='-assign'),
    al_world('Big<300>', '17', 'def', 'NO_ANY', 'NO_REPLACE', 'KINDS=1', 'NO_PLAIN', thorough_only=True),
    al_world('Lone', '11', 'def', thorough_only=True), al_world('Users', '17', 'def', cc='clang', opt='O1', suffix='-clang', optional=True, thorough_only=True),
    layout('Many', '17', 'le', *AL, 'MORE', san='none', thorough_only=True),
], 'malloc and its family are interposed and watched inside of every call to the library (not in the callbacks, sources and sinks '
   'of the user) during the workloads of the other properties: random histories of every kind of dispatcher of both policies with '
   'faults and replacements, keys, hooks, tuples, views, assignments and invocations; the monitor is tested on itself at the start '
   'of every run; distinct = distinct cases in the lane with the most',
   only=('allocation',), technique='runtime monitoring of the allocations made by the library during random workloads')


# --- the same observations whatever the build (all harnesses)

TR = ['TRANSCRIPT', 'ONLY_KIND="difference"']
BUILDS = [  # compiler, standard, configuration, optimization, thorough only
    ('gcc11', '11', 'def', 'O0', False), ('gcc11', '17', 'le', 'O0', False), ('gcc11', '17', 'def', 'O1', False), ('gcc11', '11', 'le', 'O0', False),
    ('clang', '17', 'le', 'O1', True), ('gcc13', '17', 'def', 'O2', True), ('gcc11', '11', 'e', 'O0', True), ('gcc11', '17', 's', 'O0', True),
    ('clang', '11', 'def', 'O0', True), ('gcc11', '14', 'le', 'O2', True), ('gcc13', '20', 'le', 'O0', True),
]


def builds(group, src, defs, args, scale, thorough_only=False, few=False):
    l = []
    for i, (cc, std, cfg, o, deep) in enumerate(BUILDS):
        if few and i > 1:
            deep = True
        l.append(Lane('%s-%s-%s-%s-%s' % (group, cc, std, cfg, o), src, cc=cc, std=std, cfg=cfg, opt=o, san='none', defs=list(defs) + TR,
                      args=['--transcript'] + args, scale=scale, optional=(cc, std) != ('gcc11', '11') and (cc, std) != ('gcc11', '17'), group=group,
                      thorough_only=thorough_only or deep, cpu=300))
    return l


P18 = ['--prop', 'C06+C08+C09+C12+C14']
SPECS['C18'] = Spec(
    builds('codec', 'codec.cpp', ['ENCODE', 'DECODE'], [], 1) +
    builds('small', 'disp.cpp', ['WORLD=Small', 'END=LITTLE', 'SGN=SIGNED_MAGNITUDE'], P18, 2) +
    builds('users', 'disp.cpp', ['WORLD=Users', 'END=BIG', 'SGN=OFFSET_BINARY'], P18, 2) +
    builds('refs', 'disp.cpp', ['WORLD=Refs', 'END=BIG', 'SGN=TWOS_COMPLEMENT', 'NO_REPLACE'], ['--prop', 'C06+C08+C09+C12'], 2, few=True) +
    builds('odd', 'disp.cpp', ['WORLD=Odd', 'END=LITTLE', 'SGN=ONES_COMPLEMENT', 'NO_REPLACE'], ['--prop', 'C06+C08+C09+C12'], 2, few=True) +
    builds('big', 'disp.cpp', ['WORLD=Big<300>', 'END=BIG', 'SGN=TWOS_COMPLEMENT', 'NO_ANY', 'NO_REPLACE', 'KINDS=1', 'NO_PLAIN'], ['--prop', 'C06+C08'], 1, few=True) +
    builds('answers', 'disp.cpp', ['WORLD=Answers', 'WITH_REPLY', 'NO_REPLACE', 'NO_PLAIN', 'END=BIG', 'SGN=SIGNED_MAGNITUDE'], ['--prop', 'C13+C08'], 2) +
    builds('keys', 'keys.cpp', ['WORLD=Users', 'NO_DISPATCHERS'], ['--prop', 'C26'], 1) +
    builds('keys-refs', 'keys.cpp', ['WORLD=Refs', 'NO_DISPATCHERS'], ['--prop', 'C26'], 1, few=True) +
    builds('tuples', 'layout.cpp', ['LIST=Basic'], [], 4, few=True) +
    builds('tuples-user', 'layout.cpp', ['LIST=User'], [], 4, few=True) +
    builds('tuples-assign', 'layout.cpp', ['LIST=Basic', 'ASSIGN', 'NO_INVOKE'], [], 4, few=True) +
    builds('widereturn', 'disp.cpp', ['WORLD=WideReturn', 'END=LITTLE', 'SGN=OFFSET_BINARY'], P18, 2, few=True) +
    builds('huge', 'disp.cpp', ['WORLD=Huge', 'END=BIG', 'SGN=ONES_COMPLEMENT', 'NO_REPLACE'], ['--prop', 'C06+C08+C09+C12'], 1, few=True) +
    builds('tuples-long', 'layout.cpp', ['LIST=Long', 'NO_INVOKE'], [], 1, few=True) +
    builds('widearg', 'disp.cpp', ['WORLD=WideArg', 'END=BIG', 'SGN=ONES_COMPLEMENT'], P18, 2, few=True) +
    builds('arrays', 'layout.cpp', ['LIST=Arrays', 'MORE'], [], 4, few=True),
    'the same random histories and values are run by builds with C++11 and C++17, with and without the declared byte order and '
    'signed representation, several compilers and optimization levels, and the hash of everything observed (every byte sent, every '
    'status, result, index, invocation and argument, in order) is compared every 200 observations; distinct = distinct cases in '
    'the lane with the most',
    compare=same_transcripts, same_seed=True, only=('difference',),
    technique='differential runtime monitoring: recorded transcripts of identical workloads compared between builds',
    assumptions=['every build runs on the same little-endian machine: the byte order of the platform is only varied as declared or not'])


# --- what is uninitialized

UV = ['UNDER_VALGRIND', 'ONLY_KIND="uninitialized"']


def vg(lane):
    lane.name += '-memcheck'
    lane.valgrind, lane.san, lane.cpu = True, 'none', 400
    lane.defs += UV
    lane.scale = 1
    return lane


def twins(group, src, defs, args, scale, std='17', cfg='def', opt='O0', thorough_only=False):
    return [Lane('%s-over-%s' % (group, fill), src, std=std, cfg=cfg, opt=opt, san='none', defs=list(defs) + TR, args=['--transcript', '--fill', fill] + args,
                 scale=scale, group=group, thorough_only=thorough_only) for fill in ('0', '255') + (('90',) if thorough_only else ())]


def vg_world(name, std, cfg, end, sgn, prop, *defs, **kw):
    return vg(Lane(**world(name, std, cfg, end, sgn, 'GIANT', *defs, args=['--prop', prop], **kw)))


SPECS['C20'] = Spec([
    vg_world('Small', '17', 'def', 'LITTLE', 'TWOS_COMPLEMENT', 'C08+C12'), vg_world('Small', '11', 'le', 'BIG', 'SIGNED_MAGNITUDE', 'C06+C09', opt='O1'),
    vg_world('Users', '17', 'le', 'BIG', 'OFFSET_BINARY', 'C06+C12', 'NO_REPLACE'), vg_world('Odd', '11', 'def', 'BIG', 'TWOS_COMPLEMENT', 'C08+C06', 'NO_REPLACE'),
    vg_world('Refs', '17', 'def', 'LITTLE', 'TWOS_COMPLEMENT', 'C06+C09', 'NO_REPLACE'), vg_world('WideReturn', '11', 'le', 'BIG', 'ONES_COMPLEMENT', 'C09+C08', 'NO_REPLACE'),
    vg_world('Answers', '17', 'def', 'BIG', 'TWOS_COMPLEMENT', 'C13', 'WITH_REPLY', 'NO_REPLACE', 'NO_PLAIN'),
    vg(keys('Users', '17', 'def', *K17, 'TWO_FORMATS', args=['--prop', 'C26'])), vg(keys('Small', '11', 'le', *K17, 'TWO_FORMATS', opt='O1', args=['--prop', 'C26'])),
    vg(layout('Basic', '11', 'def')), vg(layout('User', '17', 'le')), vg(layout('Basic', '17', 'def', 'ASSIGN', 'NO_INVOKE', suffix='-assign')),
    vg(Lane('encode', 'codec.cpp', std='11', cfg='def', defs=['ENCODE'], opt='O1')),
    vg_world('WideArg', '17', 'le', 'LITTLE', 'TWOS_COMPLEMENT', 'C06+C08+C09+C12+C14', thorough_only=True),
    vg_world('Users2', '11', 'def', 'LITTLE', 'TWOS_COMPLEMENT', 'C06+C08+C09+C12+C14', thorough_only=True),
    vg_world('AllVoid', '17', 'def', 'LITTLE', 'TWOS_COMPLEMENT', 'C06+C08+C09+C12+C14', thorough_only=True),
    vg(layout('Arrays', '17', 'le', 'MORE', thorough_only=True)), vg(layout('Many', '11', 'le', thorough_only=True)),
] + twins('small', 'disp.cpp', ['WORLD=Small', 'END=BIG', 'SGN=ONES_COMPLEMENT'], P18, 4) +
    twins('users', 'disp.cpp', ['WORLD=Users', 'END=LITTLE', 'SGN=TWOS_COMPLEMENT'], P18, 3, std='11', cfg='le') +
    twins('answers', 'disp.cpp', ['WORLD=Answers', 'WITH_REPLY', 'NO_REPLACE', 'NO_PLAIN', 'END=BIG', 'SGN=SIGNED_MAGNITUDE'], ['--prop', 'C13+C08'], 3, opt='O1') +
    twins('keys', 'keys.cpp', ['WORLD=Users', 'NO_DISPATCHERS'], ['--prop', 'C26'], 1, std='11', cfg='le') +
    twins('tuples', 'layout.cpp', ['LIST=User'], [], 6) +
    twins('odd', 'disp.cpp', ['WORLD=Odd', 'END=BIG', 'SGN=OFFSET_BINARY'], P18, 4, opt='O2', thorough_only=True) +
    twins('wide', 'disp.cpp', ['WORLD=WideReturn', 'END=BIG', 'SGN=OFFSET_BINARY'], P18, 4, cfg='le', thorough_only=True),
    'random histories of dispatchers of every kind and policy, replies, keys, hooks, tuples, views and assignments are run under '
    'memcheck with objects and buffers made in undefined memory over a dirtied stack, every byte and value which leaves the '
    'library being checked for definedness, and in pairs over memory filled with 0 and with 255, which must observe the same; '
    'distinct = distinct cases in the lane with the most',
    compare=same_transcripts, same_seed=True, only=('uninitialized', 'difference'),
    technique='runtime monitoring of definedness (valgrind memcheck) and comparison of transcripts over different memory contents',
    assumptions=['memcheck sees the definedness of memory and branches, not of the choices folded by the compiler'])


# --- copies and moves

SPECS['C27'] = Spec([
    Lane(**world(w, s, c, e, m, 'VALUES', scale=6)) for w, s, c, e, m in (
        ('Small', '11', 'def', 'LITTLE', 'TWOS_COMPLEMENT'), ('Small', '17', 'le', 'BIG', 'OFFSET_BINARY'), ('Users', '17', 'def', 'BIG', 'SIGNED_MAGNITUDE'),
        ('Refs', '11', 'le', 'LITTLE', 'TWOS_COMPLEMENT'), ('WideReturn', '17', 'def', 'BIG', 'ONES_COMPLEMENT'), ('AllVoid', '11', 'def', 'BIG', 'TWOS_COMPLEMENT'),
        ('Lone', '17', 'le', 'LITTLE', 'TWOS_COMPLEMENT'), ('WideArg', '17', 'le', 'LITTLE', 'SIGNED_MAGNITUDE'))] + [
    Lane(**world('Odd', '17', 'def', 'BIG', 'OFFSET_BINARY', 'VALUES', scale=20, suffix='-optimized', opt='O2', san='none')),
    layout('Basic', '11', 'def', 'VALUES', 'NO_INVOKE'), layout('User', '17', 'le', 'VALUES', 'NO_INVOKE'), layout('Arrays', '11', 'le', 'VALUES', 'NO_INVOKE'),
    keys('Small', '17', 'def', 'NO_DISPATCHERS', 'FORMS', suffix='-messages'), life(2, '17', 'def', 'BIG', 'OFFSET_BINARY', suffix='-actions'),
    life(1, '11', 'le', 'LITTLE', 'OFFSET_BINARY', suffix='-actions'),
    Lane(**world('Users', '11', 'le', 'LITTLE', 'TWOS_COMPLEMENT', 'VALUES', cc='clang', opt='O1', suffix='-clang', optional=True, thorough_only=True)),
    Lane(**world('Odd', '11', 's', 'LITTLE', 'ONES_COMPLEMENT', 'VALUES', thorough_only=True)),
    Lane(**world('Huge', '17', 'e', 'LITTLE', 'ONES_COMPLEMENT', 'VALUES', thorough_only=True)),
    layout('User2', '17', 'def', 'VALUES', 'NO_INVOKE', 'MORE', thorough_only=True), layout('Many', '11', 'def', 'VALUES', 'NO_INVOKE', thorough_only=True),
], 'dispatchers of every kind and policy are copied, moved, assigned and swapped at random points of random histories, the original '
   'being destroyed and its memory overwritten, or kept as an independent twin followed by its own model; tuples and views are '
   'copied and moved between operations under the shadow memory monitor, messages and actions too; distinct = distinct '
   '(dispatcher kind, specification state, operation, outcome) or contents in the lane with the most')


# --- threads

def threads(name, std, cfg, end, sgn, *defs, **kw):
    return Lane(name.lower().replace('<', '').replace('>', '') + '-' + std + '-' + cfg + kw.pop('suffix', ''), 'threads.cpp', std=std, cfg=cfg,
                san=kw.pop('san', 'tsan'), opt=kw.pop('opt', 'O1'), cpu=600,
                defs=['WORLD=' + name, 'END=' + end, 'SGN=' + sgn, 'THREADED'] + TR + list(defs), **kw)


ANSWERS = ('WITH_REPLY', 'NO_REPLACE', 'NO_PLAIN')
BIG = ('NO_ANY', 'NO_REPLACE', 'KINDS=1')
SPECS['C19'] = Spec([
    threads('Small', '11', 'def', 'BIG', 'OFFSET_BINARY', scale=2), threads('Small', '17', 'le', 'LITTLE', 'SIGNED_MAGNITUDE', cc='clang', optional=True, scale=2),
    threads('Users', '17', 'def', 'LITTLE', 'TWOS_COMPLEMENT'), threads('Odd', '11', 'le', 'BIG', 'TWOS_COMPLEMENT'), threads('Refs', '17', 'le', 'BIG', 'ONES_COMPLEMENT'),
    threads('WideReturn', '11', 'def', 'LITTLE', 'TWOS_COMPLEMENT'), threads('Answers', '17', 'def', 'BIG', 'TWOS_COMPLEMENT', *ANSWERS, scale=2),
    threads('Big<256>', '17', 'def', 'BIG', 'TWOS_COMPLEMENT', *BIG, opt='O0'),
    threads('Small', '17', 'def', 'LITTLE', 'TWOS_COMPLEMENT', san='none', opt='O2', suffix='-optimized', scale=8),
    threads('Users', '11', 'le', 'BIG', 'SIGNED_MAGNITUDE', san='none', opt='O2', suffix='-optimized', scale=8),
    threads('AllVoid', '11', 'le', 'LITTLE', 'TWOS_COMPLEMENT', thorough_only=True), threads('Lone', '17', 'def', 'BIG', 'TWOS_COMPLEMENT', thorough_only=True),
    threads('Users2', '11', 'def', 'BIG', 'OFFSET_BINARY', cc='clang', optional=True, thorough_only=True), threads('Huge', '17', 'le', 'BIG', 'OFFSET_BINARY', thorough_only=True),
], 'jobs which depend on their seed only (random histories of dispatchers of every kind, keys, hooks) are run by 8 threads at once, then with '
   'other dispatchers used at random inside of their callbacks, sources and sinks, then alone, and everything observed must be the same; '
   'constant keyrings, keys, tuples, views, messages, hooks and dispatchers are shared by 8 threads; ThreadSanitizer watches, and threads yield '
   'at random in the middle of library calls; distinct = distinct (dispatcher kind, specification state, operation, outcome) in the lane with the most',
   only=('data-race', 'difference', 'crash', 'hang'), technique='ThreadSanitizer and comparison of transcripts of concurrent, nested and solitary runs',
   assumptions=['the schedules are the ones which the operating system gave, disturbed by random yields; happens-before race detection does not '
                'need the accesses to collide'])


# --- interrupts

def interrupts(std, cfg, end, sgn, opt, *defs, **kw):
    kw.setdefault('san', 'none')
    return Lane('%s-%s-%s%s' % (opt.lower(), std, cfg, kw.pop('suffix', '')), 'interrupt.cpp', std=std, cfg=cfg, opt=opt, defs=['END=' + end, 'SGN=' + sgn] + list(defs), **kw)


SPECS['C28'] = Spec([
    interrupts('11', 'def', 'LITTLE', 'TWOS_COMPLEMENT', 'O0', scale=4), interrupts('17', 'le', 'BIG', 'OFFSET_BINARY', 'O0', scale=4),
    interrupts('17', 'def', 'BIG', 'SIGNED_MAGNITUDE', 'O1', scale=15), interrupts('11', 'le', 'LITTLE', 'ONES_COMPLEMENT', 'O2', scale=20),
    interrupts('17', 'le', 'LITTLE', 'TWOS_COMPLEMENT', 'O2', scale=20), interrupts('17', 'def', 'BIG', 'ONES_COMPLEMENT', 'O1', 'MANY', suffix='-many', scale=10),
    interrupts('11', 'def', 'LITTLE', 'SIGNED_MAGNITUDE', 'O1', suffix='-ubsan', san='ubsan', scale=5),
    interrupts('17', 'def', 'BIG', 'TWOS_COMPLEMENT', 'O2', suffix='-clang', cc='clang', scale=20, optional=True, thorough_only=True),
    interrupts('17', 'le', 'LITTLE', 'OFFSET_BINARY', 'O3', 'MANY', suffix='-many', scale=10, thorough_only=True),
    interrupts('17', 'e', 'BIG', 'OFFSET_BINARY', 'O1', scale=10, thorough_only=True),
], 'random pieces of work on tuples, views, keys, hooks and dispatchers of every kind are single-stepped by the processor, and every 1 to 120 '
   'instructions the trap handler does a piece of another such job, on objects of its own and on constant objects shared by both; every piece of '
   'both jobs must observe what it observes alone. In double-buffered dispatchers, interrupts receive the next request but for its last byte '
   '(dropped indices included) while the response is read in every way, and conversely; bytes, statuses and answers are compared with a model; '
   'distinct = distinct instructions after which an interrupt occurred, in the lane with the most',
    technique='runtime monitoring of single-stepped code, interrupted between instructions, against the same code alone',
    assumptions=['interrupts occur between instructions of one core, as on a microcontroller; what the interrupt itself does is not interrupted',
                 'requests are completed outside of interrupts of the same dispatcher'])


# --- Python

def pylane(name, runner, **kw):
    more = {k: kw.pop(k) for k in list(kw) if k in ('modules', 'tag', 'scenario')}
    l = Lane(name, runner=runner, san=kw.pop('san', 'none'), cpu=kw.pop('cpu', 300), **kw)
    l.__dict__.update(more)
    return l


SPECS['C21'] = Spec([
    pylane('keys-0', pylanes.keys, tag='a', modules=[(12, 0), (12, 0)]), pylane('keys-1', pylanes.keys, tag='b', modules=[(12, 0), (12, 0)], cfg='le'),
    pylane('keys-2', pylanes.keys, tag='c', modules=[(16, 0)], opt='O2'),
    pylane('keys-asan', pylanes.keys, tag='d', modules=[(8, 0), (6, 0)], san='asan', scale=0.3),
    pylane('keys-wide-index', pylanes.keys, tag='e', modules=[(0, 257)], scale=0.2, cc='clang', thorough_only=True, optional=True),
    pylane('keys-3', pylanes.keys, tag='f', modules=[(20, 0), (20, 0), (20, 0)], cfg='le', opt='O1', thorough_only=True),
    pylane('keys-gcc13', pylanes.keys, tag='g', modules=[(20, 0)], cc='gcc13', opt='O2', thorough_only=True, optional=True),
    pylane('keys-asan-le', pylanes.keys, tag='h', modules=[(12, 0), (12, 0)], san='asan', cfg='le', scale=0.3, thorough_only=True),
], 'extension modules exposing random keyrings (random formats, return and parameter types with arrays and user types, functions, functors and '
   'lambdas, several keyrings with keys of the same types) are generated from the seed, built and imported into the interpreter; random values, '
   'payloads of all sorts, arguments and payloads which must be refused are given to their keys and the bytes, values and exceptions are compared '
   'with a specification of the wire format in Python; distinct = distinct requests, responses and refusals in the lane with the most',
   technique='runtime monitoring of random calls against a reference model in Python, under ASan and UBSan too',
   assumptions=['whether bool parameters accept other objects with a truth value, and int parameters objects with __index__, is left to pybind11'])
SPECS['C22'] = Spec([
    pylane('dispatchers-0', pylanes.dispatchers, tag='a', modules=[(8, 0), (8, 0)]), pylane('dispatchers-1', pylanes.dispatchers, tag='b', modules=[(8, 0), (8, 0)], cfg='le'),
    pylane('dispatchers-2', pylanes.dispatchers, tag='c', modules=[(10, 0)], opt='O2'),
    pylane('dispatchers-asan', pylanes.dispatchers, tag='d', modules=[(6, 0), (6, 0)], san='asan', scale=0.3),
    pylane('dispatchers-wide-index', pylanes.dispatchers, tag='e', modules=[(0, 257)], scale=0.5, cc='clang', optional=True),
    pylane('dispatchers-3', pylanes.dispatchers, tag='f', modules=[(16, 0), (16, 0)], cfg='le', opt='O1', thorough_only=True),
    pylane('dispatchers-gcc13', pylanes.dispatchers, tag='g', modules=[(16, 0)], cc='gcc13', opt='O2', thorough_only=True, optional=True),
    pylane('dispatchers-asan-le', pylanes.dispatchers, tag='h', modules=[(12, 0), (12, 0)], san='asan', cfg='le', scale=0.3, thorough_only=True),
], 'extension modules exposing random dispatchers are generated from the seed, built and imported; random histories of put, get, read_from, write_to, '
   'is_loaded and replace on groups of them are followed by a specification in Python, with C++ and Python callbacks of many forms which return, '
   'raise, give unconvertible results or use other dispatchers, getters and putters which fail at random, calls which must be refused, weak '
   'references to the callbacks, and threads; distinct = distinct (dispatcher, specification state, operation, outcome) in the lane with the most',
   technique='runtime monitoring of random histories against a reference model in Python, under ASan and UBSan too',
   assumptions=['a dispatcher is not used again from its own callbacks', 'callbacks which refer to their own dispatcher (reference cycles) are not collected and not judged'])
SPECS['C23'] = Spec([
    pylane('clients-0', pylanes.clients, tag='a', modules=[(12, 0)]), pylane('clients-1', pylanes.clients, tag='b', modules=[(12, 0)], cfg='le'),
    pylane('clients-asan', pylanes.clients, tag='c', modules=[(6, 0)], san='asan', scale=0.3),
    pylane('clients-2', pylanes.clients, tag='d', modules=[(16, 0), (16, 0)], opt='O2', thorough_only=True),
], 'random numbers of calls are made at once through clients with new_request of many forms (futures, coroutines, awaitables, tasks), with keys of random '
   'generated modules and with keys which record what is asked to them; the responses, objects, exceptions and cancellations are given in random orders '
   'in random event loop iterations, and the requests sent and the end of each call are compared with what was given to it; also from several threads with '
   'loops of their own; distinct = distinct completion orders and (key, outcome) in the lane with the most',
   technique='offline checking of the recorded requests and outcomes of concurrent calls',
   assumptions=['whether a subclass of bytes is decoded is left open'])
SPECS['C24'] = Spec([
    pylane('hook-0', pylanes.hook, scale=2, modules=['plain', 'dotted', 'nested']), pylane('hook-1', pylanes.hook, scale=2, modules=['deep', 'extra', 'twin']),
    pylane('hook-2', pylanes.hook, scale=2, modules=['namespace', 'plain', 'nested', 'twin']), pylane('hook-3', pylanes.hook, scale=2, modules=['plain', 'extra', 'dotted']),
    pylane('hook-4', pylanes.hook, scale=2, modules=['nested', 'twin', 'extra']), pylane('hook-5', pylanes.hook, modules=['binding', 'plain'], scale=0.17),
], 'random histories of edits of sources, headers and headers in extra include directories (of the same size and date), breakages, repairs, binaries '
   'and files left over by earlier builds, and imports of opted-in modules (top-level, in packages and namespaces, importing each other, beside Python '
   'modules of the same name) by an interpreter of their own; what the modules return tells which version was loaded; random ordinary, missing and '
   'failing modules are imported with and without the hook, also with directories on the path which disappeared or cannot be read, and must give the '
   'same; distinct = distinct (module, state, edits) and (trouble, import) in the lane with the most',
   technique='runtime monitoring of random histories of builds and imports against a model, and differential runs with and without the hook',
   assumptions=['one thread of one process imports a C++ module at a time', 'a rebuilt module is observed in a new interpreter, as CPython does not load '
                'an extension module again', 'CC and CXX name working compilers and ccache is installed'])
