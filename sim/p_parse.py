"""C08: what a sequent parses to does not depend on what was parsed before."""
import core
import gen
from p_vts import run_all, prepare
from props import scenario, describe

POISON = (
    '(sequent "p" (antecedent (<= (/ 0 0) 1)) (succedent (> x 2)))',
    '(sequent "p" (antecedent (<= (/ 1 0) 1)) (succedent (>= (/ 0 0) x)))',
    '(sequent "p" (antecedent (= (/ 0 0) (/ 0 0))) (succedent (!= x (/ 1 0))))',
    '(sequent "p" (antecedent (< (* (/ 1 0) 0) y)) (succedent (> (/ 0 0) 2)))',
)
JUNK = ('', '\n', '; comment\n', ' ) ( ', 'set-info x ', '(antecedent)', '-- 3.')


def content(ch):
    """(text, expected sequents)"""
    text, exp = ch.of(JUNK, 'junk'), []
    for _ in range(ch.between(1, 3, 'sequents')):
        t, e = gen.sequent(ch, (1, 2, 3)[ch.weighted((6, 5, 1), 'depth')])
        text += t + ch.of(JUNK, 'junk')
        exp.append(e)
    return text, exp


def check_content(ctx, v, exp, text):
    if len(v) != len(exp):
        ctx.violate('parse-lost', '%d sequents found, not %d, in %r' % (
            len(v), len(exp), text))
    for r, e in zip(v, exp):
        bad = gen.check_sequent(r, e)
        if bad:
            ctx.violate('wrong-parse', '%s in %r' % (bad, text))


@scenario('C08', prepare)
def c08(ctx):
    ch, sim = ctx.ch, ctx.sim
    p = ctx.proc()
    sim.set_preempt((0, 30, 6)[ch.pick(3, 'preempt-style')])
    plans = []
    for t in range(ch.between(1, 3, 'threads')):
        ops = []
        for _ in range(ch.between(2, 6, 'ops')):
            k = ch.weighted((6, 2, 2, 1), 'op')
            if k == 0:
                ops.append(('good', content(ch)))
            elif k == 1:
                ops.append(('broken', gen.broken_sequent(ch)))
            elif k == 2:
                ops.append(('interrupted', content(ch)))
            else:
                ops.append(('poison', ch.of(POISON, 'poison')))
        plans.append(ops)
    ctx.nontrivial = len(plans) > 1 or len(plans[0]) > 1
    ctx.say([[(k, x if isinstance(x, str) else x[0]) for k, x in ops]
             for ops in plans])

    def parse(text, whole):
        g = p.load('grf_parser')
        if whole:
            return [g.cmd.parseString(text)]
        out = []
        for r, a, b in g.cmd.scanString(text):
            out.append(r)
            core.pause()
        return out

    def work(ops):
        kept = []
        for kind, x in ops:
            ctx.count('parses')
            if kind in ('broken', 'poison'):
                ctx.call(p, parse, x, False)
                continue
            text, exp = x
            if kind == 'interrupted':
                ctx.step_faults(p, ('interrupt', 'memory'), 150, 1, 1)
                st, v = ctx.call(p, parse, text, False)
                ctx.disarm(p)
                ctx.count('interrupted')
            else:
                st, v = ctx.call(p, parse, text, False)
            if st == 'ok':
                check_content(ctx, v, exp, text)
                kept.append((v, exp, text))
            elif st == 'err':
                ctx.violate('parse-fails', '%r raises %s with nothing '
                            'injected into the call' % (text, describe(v)))
        # results already handed out are not changed by later parses
        for v, exp, text in kept:
            check_content(ctx, v, exp, text)

    def main():
        p.load('grf_parser')
        for i, ops in enumerate(plans[1:]):
            sim.spawn(p, lambda ops=ops: work(ops), '%s.%d' % (p.name, i + 1))
        sim._draw_preempt()
        work(plans[0])
    run_all(ctx, [sim.spawn(p, main)])
