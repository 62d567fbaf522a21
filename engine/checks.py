"""registry: property id -> the analysis that decides it"""
from decodecheck import DecodeCheck
from vbicheck import VbiCheck
from enccheck import EncodeCheck
from clientcheck import ClientCheck
from loopcheck import LoopCheck, consistent
from pollcheck import PollCheck
from idscheck import IdsCheck
from spec import Undecided, forks
from interp import Unsupported

TRUST = ['rustc 1.101 nightly: MIR of /repo and of the generic library code it instantiates',
         'engine/models.py: effect of the std, bytes, tokio and futures functions it lists',
         'engine/{lin,vals,interp,widen}.py: the abstract interpreter']


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []
        self.undecided = []
        self.obligations = (0, 0)
        self.analysed = []
        self.counts = {}
        self.samples = []
        self.trusted = list(TRUST)
        self.assumptions = []
        self.rule = ''

    def take(self, c, prop=None):
        """add what a checker found about this property"""
        pid = prop or self.pid
        self.viol += [v for v in c.viol if v.prop == pid]
        d, t = c.oblig.get(pid, (0, 0))
        self.obligations = (self.obligations[0] + t, self.obligations[1] + d)


def names(A):
    """local functions the analysis went through"""
    P = A.P
    return sorted('%s (%s)' % (P.bodies[k]['path'], P.bodies[k]['span'])
                  for k in A.visited if k in P.bodies and P.bodies[k]['local'])


RULES = {
    'C01': 'every assert, bounds check, slice range, unwrap and arithmetic overflow on every path of decode is shown '
           'not to fail for any buffer contents; every loop has a quantity that decreases on every way round',
    'C02': 'for every path of decode: result, buffer left over and bytes depended on, against the frame grammar',
    'C03': 'every path of the integer decoder and encoder, against the base-128 definition',
    'C04': 'every path of decode that yields a packet: packet kind against the type nibble',
    'C05': 'every path of decode: each field of the packet against the offsets MQTT assigns; error paths only for '
           'malformed frames',
    'C06': 'every reason, flag and QoS value on every path of decode, for every possible byte value',
    'C07': 'on every way round each property loop exactly one property is read at the cursor, stored, and the cursor '
           'moves to its end; at exit the cursor is at the end of the section',
    'C08': 'every path that rejects a frame inside a property section: the property at the cursor is not one that '
           'MQTT allows there',
    'C11': 'on every path of a client call that queues a command, the facts of that path bound every string by 65535 bytes '
           'and the packet by 268435455; per property: every way round the loop that walks the list does',
    'C15': 'from every allocator whose free ranges form one ascending chain, next_id and return_id leave such an allocator, '
           'change the set of free identifiers exactly as promised, and cannot panic; new establishes it',
    'C24': 'every poll of the event-loop future from every state it can be in between polls, with the connect and the '
           'session each pending, failing or succeeding: what is polled, what is created, what is returned',
    'C25': 'generic programs that state the bounds must compile; programs that reach for the queue, the commands or the '
           'packets must be rejected; no exported item may mention the command or packet type',
    'C22': 'every path of every client call: number and contents of the commands put on the queue against the result',
    'C23': 'every path of each builder call followed by publish: the queued command against the arguments, and for qos and '
           'with_property against the command of the same arbitrary builder without that call (induction over call sequences)',
    'C12': 'every path from the connection to the first turn of the main loop: order of writes, reads and notifications',
    'C13': 'every turn of the main loop that takes a command: the packets written against the fields of the command; every '
           'other turn: no PUBLISH, SUBSCRIBE or UNSUBSCRIBE is written',
    'C14': 'every turn: identifiers taken against identifiers written; identifiers released against the acknowledgement read; '
           'the sequence that every QoS 1 publish is added to changes only by that and by the matching PUBACK',
    'C16': 'every turn that reads a PUBLISH, by QoS: PUBACKs written and notifications sent; every other turn: no PUBACK',
    'C17': 'every turn: notifications sent against the packet read',
    'C18': 'every tick turn in every state reachable with the last PINGREQ unsent, unanswered or answered; every other turn: '
           'no PINGREQ; the timer against the keep-alive in CONNECT; every state waits for the timer',
    'C19': 'every turn: how it ends against what was read, what was taken and whether a write failed',
    'C20': 'every way round the main loop consumes an input that is not finished; every state reads the connection',
    'C21': 'no assert, unwrap, index or unreachable arm on any path of the session, of decode and of encode can fail',
    'C09': 'every path of encode, for every packet variant the client sends with symbolic contents: the bytes appended '
           'to the output, segment by segment, against the packet layout; every list loop appends the encoding of exactly '
           'the next element on every way round',
    'C10': 'the property section on every path of encode: the length equals the bytes of the properties, and every loop '
           'over the property list appends identifier and typed value of exactly the next element',
}


def decoder(pid, P, tier, res):
    V = VbiCheck(P)
    V.run()
    D = DecodeCheck(P)
    D.analyse()
    if pid == 'C01':
        D.check_safety()
    else:
        D.check()
    res.take(D)
    if pid == 'C01':
        res.take(V)
    dec = [v for v in V.viol if v.prop == 'C03' and v.what.startswith('decode')]
    if dec and pid in ('C02', 'C07'):
        for v in dec:
            w = type(v)(pid, v.where, 'the length it relies on is wrong: variable byte integer %s' % v.what, v.detail)
            res.viol.append(w)
    for u in D.undecided:
        if ':' not in u or not u.startswith('C') or u.startswith(pid):
            res.undecided.append(u)
    res.undecided += ['not analysed: %s' % e for e in D.A.incomplete]
    res.undecided += V.undecided
    res.analysed = names(D.A)
    res.counts = dict(D.A.stats, final_states=len(D.results), loops=len(D.A.looplist))
    res.assumptions = ['variable byte integers decode as C03 states; C03 decides that on the same tree']
    if pid == 'C08':
        res.counts['accepted'] = {k: sorted('0x%02X' % i for i in v) for k, v in D.seen_accept.items()}


def vbi(pid, P, tier, res):
    V = VbiCheck(P)
    V.run()
    res.take(V)
    res.undecided += V.undecided
    res.analysed = V.analysed


def encoder(pid, P, tier, res):
    V = VbiCheck(P)
    V.run()
    E = EncodeCheck(P)
    E.analyse()
    if pid == 'C10':
        E.analyse_lists()
    E.check()
    res.take(E)
    if pid in ('C09', 'C10'):
        for v in V.viol:
            if v.prop == 'C03' and v.what.startswith('encode'):
                res.viol.append(type(v)(pid, v.where, 'the length written is wrong: variable byte integer %s' % v.what,
                                        v.detail))
    for u in E.undecided:
        if u.startswith(pid) or not u.startswith('C0') and not u.startswith('C1'):
            res.undecided.append(u)
    res.undecided += V.undecided
    P_ = E.P
    res.analysed = sorted(set(res.analysed) | set(
        '%s (%s)' % (P_.bodies[k]['path'], P_.bodies[k]['span']) for k in E.visited
        if k in P_.bodies and P_.bodies[k]['local']))
    for k, n in dict(E.stats, packet_variants=len(E.runs), property_lists=len(E.lists), final_states=sum(len(r[2]) for r in E.runs.values())).items():
        res.counts['encode_' + k] = n
    res.assumptions += ['fields of at most 65535 bytes and a remaining length of at most 268435455: longer ones are C11',
                        'a PUBLISH holds a packet identifier exactly when its QoS is above 0 (C14, C21)']


def both(pid, P, tier, res):
    decoder(pid, P, tier, res)
    encoder(pid, P, tier, res)


def client(pid, P, tier, res):
    C = ClientCheck(P)
    {'C22': C.check_calls, 'C23': C.check_builder, 'C11': C.check_lengths}[pid]()
    res.take(C)
    res.undecided += [u for u in C.undecided if u.startswith(pid)]
    res.analysed = sorted('%s (%s)' % (P.bodies[k]['path'], P.bodies[k]['span']) for k in C.visited
                          if k in P.bodies and P.bodies[k]['local'])
    res.counts = {'entry_runs': C.nrun}
    res.assumptions = ['no sequence in memory is longer than 2^47 bytes']


def witness(pid, P, tier, res):
    import os
    import run
    from witcheck import WitnessCheck
    W = WitnessCheck(P, P.D, os.path.realpath(run.REPO), run.WORK)
    W.exports()
    W.witnesses()
    res.take(W)
    res.undecided += W.undecided
    res.analysed = W.done
    res.counts = {'witnesses': sum('witness' not in x for x in W.done)}
    res.trusted = ['rustc: type checking of the witnesses, effective visibilities']
    res.assumptions = []


def ids(pid, P, tier, res):
    C = IdsCheck(P)
    C.run()
    res.viol += C.viol
    res.obligations = (C.obligations[1], C.obligations[0])
    res.undecided += C.undecided
    res.analysed = sorted(set(n for A in C.analyzers for n in names(A)))
    res.counts = dict(queries=C.queries, search_nodes=C.nodes,
                      **{k: sum(A.stats[k] for A in C.analyzers) for k in C.analyzers[0].stats} if C.analyzers else {})
    res.samples = C.samples[:12]
    res.assumptions = ['an identifier that is returned is at most the maximum of the allocator']


def future(pid, P, tier, res):
    F = PollCheck(P)
    F.run()
    res.viol += F.viol
    res.obligations = F.obligations
    res.undecided += ['%s: %s' % (pid, u) for u in F.undecided]
    res.analysed = names(F.A)
    res.counts = dict(F.A.stats, states=len(F.nodest), polls=len(F.polls))
    res.samples = ['poll: ' + repr(e) for e in F.polls[:8]]
    res.assumptions = ['a future that completed is not polled again by the executor',
                       'the connect future and the session complete or stay pending; what the session does is C12 to C21']


LOOP = ('C12', 'C13', 'C14', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21')


def loop(pid, P, tier, res):
    L = LoopCheck(P)
    L.check([pid])
    res.take(L)
    res.undecided += [u for u in L.undecided if u.startswith(pid) or u.startswith('not analysed')]
    res.analysed = names(L.A)
    if L.g:
        res.counts = dict(L.A.stats, loop_states=len(L.g.nodemem), turns=len(L.g.edges))
        res.samples = ['turn: ' + repr(e) for e in L.g.edges[:8]]
    res.assumptions = ['a PUBLISH the parser returns holds an identifier when its QoS is above 0; C21 decides that on the same tree',
                       'a future that is pending is polled again; a future that completed is what its model says']
    if pid == 'C14':
        res.assumptions.append('the allocator does what C15 states')
    if pid == 'C21':
        panics(P, res)


def panics(P, res):
    """the rest of what the event loop runs: decoding, encoding, and what the parser guarantees"""
    def add(v, what):
        res.viol.append(type(v)('C21', v.where, what + v.what, v.detail))
    V = VbiCheck(P)
    V.run()
    D = DecodeCheck(P)
    D.analyse()
    D.check_safety()
    for c, w in ((V, ''), (D, '')):
        for v in c.viol:
            if v.prop == 'C01' and 'panic' in v.what:
                add(v, 'decoding a packet: ')
        d, t = c.oblig.get('C01', (0, 0))
        res.obligations = (res.obligations[0] + t, res.obligations[1] + d)
    res.undecided += ['not analysed: %s' % e for e in D.A.incomplete] + V.undecided
    E = EncodeCheck(P)
    E.analyse()
    E.check()
    for v in E.viol:
        if v.prop == 'C09' and 'panic' in v.what:
            add(v, '')
    res.undecided += [u for u in E.undecided if 'panic' in u or u.startswith('not analysed')]
    n = sum(r[1].stats['asserts'] for r in E.runs.values()) if all(hasattr(r[1], 'stats') for r in E.runs.values()) else 0
    res.obligations = (res.obligations[0] + n, res.obligations[1] + n)
    res.analysed = sorted(set(res.analysed) | set(names(D.A)))
    A = D.A
    for s, v in D.results:
        try:
            out = D.outcome(v)
            if out[0] != 'some':
                continue

            def f(st):
                i = A.variant_idx(st, out[1])
                p = A.expand(st, out[1], i)
                return A.P.types[p.ty]['variants'][i]['name'] != 'Publish' or consistent(A, st, p.fs[0])
            for st, ok in forks(A, s, f, limit=200):
                res.obligations = (res.obligations[0] + 1, res.obligations[1] + (1 if ok else 0))
                if not ok and st.store.feasible():
                    from decodecheck import Violation, describe
                    res.viol.append(Violation('C21', 'parse of PUBLISH', 'a PUBLISH with a QoS above 0 is parsed without '
                                              'an identifier, the event loop panics on it', describe(st)[:2000]))
        except (Undecided, Unsupported) as e:
            res.undecided.append('C21: parsed PUBLISH: %s' % e)


CHECKS = {'C03': vbi, 'C15': ids, 'C24': future, 'C25': witness, 'C11': client, 'C22': client, 'C23': client, 'C06': both, 'C09': encoder, 'C10': encoder}
for _p in ('C01', 'C02', 'C04', 'C05', 'C07', 'C08'):
    CHECKS[_p] = decoder
for _p in LOOP:
    CHECKS[_p] = loop


def run(pid, P, tier, res):
    res.rule = RULES.get(pid, '')
    CHECKS[pid](pid, P, tier, res)
    if not res.samples:
        res.samples = res.analysed[:5]
