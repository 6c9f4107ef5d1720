F = 'spherepy/spherepy.py'
SEEDS = [
 dict(id='c07-mag2-cross', property='C07', file=F, edits=[("""        return ScalarCoefs(np.abs(sobj.scoef1._vec) ** 2 + \\
                           np.abs(sobj.scoef2._vec) ** 2,
""", """        return ScalarCoefs(np.abs(sobj.scoef1._vec + \\
                                  1j * sobj.scoef2._vec) ** 2,
""")], needs='a vector set whose two components have different complex phases', breaks='mag2 is |a + i b|^2 instead of |a|^2+|b|^2',
   demo='import spherepy as sp\nc = sp.zeros_coefs(3, 2, coef_type=sp.vector)\nc[2, 1] = (1.0, 1.0j)\nassert abs(sp.mag2(c)[2, 1] - 2) < 1e-12\n'),
 dict(id='c08-real-zero', property='C08', file=F, edits=[("            if s == 0 or t == 0:\n                ddata", "            if s.real == 0 or t.real == 0:\n                ddata")],
   needs='a pole entry (or its partner) that is purely imaginary and nonzero', breaks='the pole entry becomes the sum instead of the average',
   demo='import numpy as np, spherepy as sp\ng = np.ones((4, 4), complex); g[0] = 2j\np = sp.ScalarPatternUniform(g)\nassert np.allclose(p.cdata[0], 2j)\n'),
 dict(id='c09-rsub-real', property='C09', file=F, edits=[("""    @_scalar_pattern_uniform_op_right
    def __rsub__(self, a, b):
        return b - a
""", """    @_scalar_pattern_uniform_op_right
    def __rsub__(self, a, b):
        if b.real == 0:
            return -a
        return b - a
""")], needs='an imaginary number minus a pattern', breaks='1j - p drops the number',
   demo='import numpy as np, spherepy as sp\np = sp.ones_patt_uniform(4, 4)\nassert np.allclose((1j - p).cdata, 1j - 1)\nassert np.allclose((2 - p).cdata, 1)\n'),
]
