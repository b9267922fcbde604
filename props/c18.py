"""history and stopping rule of the iterative estimators: one arbitrary iteration, both ways of leaving the loop"""
from .fits import *
ASSUME = ['the previous target is not zero (its relative change is undefined otherwise)']


def run(B, L):
    B.functions |= {'BayesianRegression.fit', 'BayesianRegression._is_stationary_point', 'BayesianRegression.iterations',
                    'BayesianEIVRegression.fit', 'BayesianEIVRegression._is_stationary_point', 'BayesianEIVRegression.iterations'}

    for cls, weighted in (('BayesianRegression', False), ('BayesianEIVRegression', False), ('BayesianEIVRegression', True)):
        def body(h, cls=cls, weighted=weighted):
            s = setup(h, L, cls, own_stop=True, weights='csr', weighted=weighted)
            np = s.np
            old = s.ms(S(P(0), ZERO, 'i'), h.array('old', (s.n, s.n), 'c'), h.real('old_target'))
            s.m.iterations.append(old)             # trace of an earlier fit on this object

            def met(sp):
                """the documented criterion at the iteration that just ended"""
                prev = sp.prev_target(P(sp.it) - 1)
                C().nonzero.add(prev.re)
                C()._touch()
                cur = last_entry(s).target_function
                d = np.abs(cur - prev)
                lt = lambda a, b: X.norm(X.dec_lt(toS(a).re - toS(b).re))
                le = lambda a, b: X.norm(X.dec_le(toS(a).re - toS(b).re))
                near = ONE - (ONE - lt(d, s.atol)) * (ONE - lt(d, s.rtol * np.abs(prev)))
                return le(cur, prev) * near

            def on_end(sp):
                e = last_entry(s)
                h.eq('entry is numbered with its iteration', e.iteration, S(sp.it, ZERO, 'i'))
                first = X.dec_eq(P(sp.it))
                if sp.broke: h.true('stops early only when the criterion is met, from the second iteration on', S((ONE - first) * met(sp), ZERO, 'b'))
                else: h.true('goes on only when the criterion is not met', S(ONE - (ONE - first) * met(sp), ZERO, 'b'))
            sp = start(s, on_end)
            s.m.fit(*s.args)
            hist = s.m.iterations
            if sp.ran:
                h.eq_arr('returned matrix is the one in the last entry', s.m.fitted_admittance_matrix, hist[-1].fitted_parameters)
                h.true('no more entries than the limit', S(T.le0(sp.it + 1 - dp(s.maxit)), ZERO, 'b'))
                h.eq('as many entries as iterations', hist.length(), S(sp.it + 1, ZERO, 'i'))
                k = h.index(dim(sp.it))
                h.eq('earlier entries stay', hist[S(P(k), ZERO, 'i')].target_function, sp.prev_target(P(k)))
                h.eq('earlier entries keep their numbers', hist[S(P(k), ZERO, 'i')].iteration, S(P(k), ZERO, 'i'))
            else: h.true('no entry without iterations', len(list(hist)) == 0)
        B.verify('%s%s' % (cls, '' if cls == 'BayesianRegression' else ' weighted' if weighted else ' unweighted'), body)
