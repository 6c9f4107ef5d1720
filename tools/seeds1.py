F = 'spherepy/spherepy.py'
SEEDS = [
 dict(id='c01-zero-write', property='C01', file=F, edits=[("            idx = pysphi.mindx(m, self.nmax, self.mmax) + n - np.abs(m)\n\n            self._vec[idx] = val\n",
   "            idx = pysphi.mindx(m, self.nmax, self.mmax) + n - np.abs(m)\n\n            self._vec[idx] = val or self._vec[idx]\n")],
   needs='writing the value zero over a nonzero mode', breaks='c[n,m]=0 is ignored',
   demo='import spherepy as sp\nc = sp.ones_coefs(4, 3)\nc[3, -2] = 0.0\nassert c[3, -2] == 0\n'),
 dict(id='c02-partial-write', property='C02', file=F, edits=[("""        if isinstance(val, (list, tuple)):
            if len(val) != 2:
                raise AttributeError(err_msg['val_2tuple'])
        else:
            raise AttributeError(err_msg['val_2tuple'])
""", """        if not isinstance(val, (list, tuple)):
            raise AttributeError(err_msg['val_2tuple'])
"""), ("""                self.scoef1[n, m] = val[0]
                self.scoef2[n, m] = val[1]
""", """                self.scoef1[n, m] = val[0]
                if len(val) != 2:
                    raise AttributeError(err_msg['val_2tuple'])
                self.scoef2[n, m] = val[1]
""")], needs='assigning a tuple of three numbers to a mode and looking at the set afterwards',
   breaks='the rejected write has already changed the first component',
   demo='''import spherepy as sp
c = sp.ones_coefs(4, 3, coef_type=sp.vector)
try:
    c[2, 1] = (5.0, 6.0, 7.0)
    assert 0
except AttributeError:
    pass
assert c[2, 1] == (1, 1)
'''),
 dict(id='c03-trunc-alias', property='C03', file=F, edits=[("""                N = new_nmax + 1;
                NC = N + new_mmax * (2 * N - new_mmax - 1);
                vec = np.zeros(NC, dtype=np.complex128)

                vec[0""", """                if (new_nmax, new_mmax) == (self.nmax, self.mmax):
                    return ScalarCoefs(self._vec, new_nmax, new_mmax)

                N = new_nmax + 1;
                NC = N + new_mmax * (2 * N - new_mmax - 1);
                vec = np.zeros(NC, dtype=np.complex128)

                vec[0""")], needs='truncating to the full size and then changing the result',
   breaks='c[0:nmax,:] shares its storage with c',
   demo='import spherepy as sp\nc = sp.ones_coefs(4, 3)\nd = c[0:4, :]\nd[2, 1] = 9\nassert c[2, 1] == 1\n'),
 dict(id='c04-tiny-divisor', property='C04', file=F, edits=[("""            if b == 0:
                raise ZeroDivisionError()
            return a / b
        else:
            return a / b

    @_vector_coef_op_right
    def __rtruediv__""", """            if np.abs(b) < 1e-30:
                raise ZeroDivisionError()
            return a / b
        else:
            return a / b

    @_vector_coef_op_right
    def __rtruediv__""")], needs='dividing a vector coefficient set by a tiny nonzero number',
   breaks='division by a nonzero number raises ZeroDivisionError',
   demo='import spherepy as sp\nc = sp.ones_coefs(4, 3, coef_type=sp.vector)\nd = c / 1e-40\nassert abs(d[2, 1][0] - 1e40) < 1e28\n'),
 dict(id='c05-one-monopole', property='C05', file=F, edits=[("""        vec1[0] = 0 + 1j*0
        vec2[0] = 0 + 1j*0
""", """        if vec1[0] != 0 and vec2[0] != 0:
            vec1[0] = 0 + 1j*0
            vec2[0] = 0 + 1j*0
""")], needs='a vector set built from data with a monopole in one component only',
   breaks='the n=0 entry of that component survives',
   demo='import numpy as np, spherepy as sp\na = np.ones(9, complex); b = np.ones(9, complex); b[0] = 0\nc = sp.VectorCoefs(a, b, 2, 2)\nassert c.scoef1[0, 0] == 0 and c.scoef2[0, 0] == 0\n'),
 dict(id='c06-real-window', property='C06', file=F, edits=[("""        slce = slice(None, None, None)
        
        self""", """        slce = slice(None, None, None)
        vec = np.real(np.asarray(vec))
        
        self""")],
   needs='a complex window', breaks='the imaginary part of the window is dropped',
   demo='import numpy as np, spherepy as sp\nc = sp.ones_coefs(4, 4)\nc.window(1j * np.arange(5.0))\nassert c[4, 4] == 4j and c[3, -2] == 3j\n'),
 dict(id='c23-single-prec', property='C23', file=F, edits=[("""        sc_array = np.zeros((self.nmax + 1, 2 * self.mmax + 1),
                            dtype=np.complex128)
""", """        sc_array = np.zeros((self.nmax + 1, 2 * self.mmax + 1),
                            dtype=np.complex64)
""")], needs='values that single precision does not hold', breaks='the 2-D representation rounds the coefficients',
   demo='import spherepy as sp\nc = sp.ones_coefs(4, 4) * 0.1\nassert abs(c._array_2d_repr()[3, 4] - c[3, 0]) < 1e-15\n'),
]
