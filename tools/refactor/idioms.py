# Masks, generators, operator tables, inheritance, exceptions.
R=[]
def r(*a): R.append(a)
S='spherepy/spherepy.py'; O='spherepy/ops.py'; PY='spherepy/pysphi.py'; B='spherepy/sbessel.py'; F='spherepy/file.py'
r('mask',S,"""    for n in xrange(0, nrows):
        for m in xrange(0, ncols):
            s = sym * cdata[np.mod(nrows - n, nrows),
                          np.mod(int(np.floor(ncols / 2)) + m, ncols)]
            t = cdata[n, m]

            if s == 0 or t == 0:
                ddata[n, m] = s + t
            else:
                ddata[n, m] = (s + t) / 2

    return ddata
""","""    rows = (nrows - np.arange(nrows)) % nrows
    cols = (np.arange(ncols) + ncols // 2) % ncols
    mirror = sym * cdata[rows, :][:, cols]
    ddata[:, :] = cdata + mirror
    both = (cdata != 0) & (mirror != 0)
    ddata[both] /= 2

    return ddata
""")
r('freq',O,"""    a = list(range(0, B))
    ap = list(range(-B, 0))
    a.extend(ap)
    
    dtheta = np.zeros([nrows, ncols], np.complex128)
    
    for k in xrange(0, ncols):
        dtheta[:, k] = a
        
    fdata[:, :] = 1j * dtheta * fdata
""","""    a = np.fft.ifftshift(np.arange(-B, B))
    fdata[:, :] = 1j * a.reshape(-1, 1) * fdata
""")
r('freq2',O,"""    a = list(range(0, int(B)))
    ap = list(range(-int(B), 0))
    a.extend(ap)
    
    dphi = np.zeros([nrows, ncols], np.complex128)
    
    for k in xrange(0, nrows):
        dphi[k, :] = a
        
    fdata[:, :] = 1j * dphi * fdata
""","""    a = np.fft.fftfreq(ncols) * ncols
    for row in fdata:
        row *= 1j * a
""")
r('bits',O,"""    if np.mod(L, 2) == 0:
        fdata[int(L / 2), :] = 0
""","""    if not L & 1:
        fdata[L >> 1].fill(0)
""")
r('optable',S,"""    @_scalar_coef_op_left
    def __add__(self, a, b):
        return a + b

    @_scalar_coef_op_right
    def __radd__(self, a, b):
        return  b + a

    @_scalar_coef_op_left
    def __sub__(self, a, b):
        return a - b

    @_scalar_coef_op_right
    def __rsub__(self, a, b):
        return b - a

    @_scalar_coef_op_left
    def __mul__(self, a, b):
        return a * b

    @_scalar_coef_op_right
    def __rmul__(self, a, b):
        return b * a
""","""    __add__ = _scalar_coef_op_left(lambda self, a, b: operator.add(a, b))
    __radd__ = _scalar_coef_op_right(lambda self, a, b: operator.add(b, a))
    __sub__ = _scalar_coef_op_left(lambda self, a, b: operator.sub(a, b))
    __rsub__ = _scalar_coef_op_right(lambda self, a, b: operator.sub(b, a))
    __mul__ = _scalar_coef_op_left(lambda self, a, b: operator.mul(a, b))
    __rmul__ = _scalar_coef_op_right(lambda self, a, b: operator.mul(b, a))
""")
r('imp',S,"""import numbers
""","""import numbers
import operator
import itertools
import functools
""")
r('oprops',S,"""    @_vector_coef_op_left
    def __add__(self, a, b):
        return a + b

    @_vector_coef_op_right
    def __radd__(self, a, b):
        return  b + a
""","""    def _binary(op):
        def func(self, a, b):
            return op(a, b)
        return func

    def _swapped(op):
        def func(self, a, b):
            return op(b, a)
        return func

    __add__ = _vector_coef_op_left(_binary(operator.add))
    __radd__ = _vector_coef_op_right(_swapped(operator.add))
""")
r('gen',S,"""        lst = []
        sl = slice(None, None, None)
        lst.append(self.__getitem__((sl, 0)))
        for m in xrange(1, self.mmax + 1):
            lst.append(self.__getitem__((sl, -m)))
            lst.append(self.__getitem__((sl, m)))
        return lst
""","""        def orders():
            yield 0
            for m in xrange(1, self.mmax + 1):
                yield -m
                yield m
        return [self[:, m] for m in orders()]
""")
r('chain',S,"""        for n in xrange(0, self.nmax + 1):
            mlst = []
            if n <= self.mmax:
                nn = n
            else:
                nn = self.mmax            
            for m in xrange(-nn, nn + 1):
                mlst.append(self.__getitem__((n, m)))
            lst.append(mlst)
        return lst
""","""        for n in xrange(self.nmax + 1):
            nn = min(n, self.mmax)
            orders = itertools.chain(range(-nn, 0), range(0, nn + 1))
            lst.append([self[n, m] for m in orders])
        return lst
""")
r('trycopy',S,"""            try:
                self.scoef1[n, m] = val[0]
                self.scoef2[n, m] = val[1]
            except IndexError:
                AttributeError(err_msg['set_vc_val'])
""","""            self._put(n, m, *val)
""")
r('trycopy2',S,"""    def __repr__(self):
        return "VectorCoefs(nmax = {0}, mmax = {1})".format(self.nmax,
                                                                     self.mmax)
""","""    def _put(self, n, m, first, second):
        \"\"\"store the pair at (n, m)\"\"\"
        self.scoef1[n, m] = first
        self.scoef2[n, m] = second

    def __repr__(self):
        return f"VectorCoefs(nmax = {self.nmax}, mmax = {self.mmax})"
""")
r('static',S,"""    def _sv(self, dat):
        
        nrows = dat.shape[0]
        ncols = dat.shape[1]
""","""    @staticmethod
    def _sv(dat):
        
        nrows, ncols = dat.shape
""")
r('svprop',S,"""        sv_t = self._sv(self._tdsphere)
        sv_p = self._sv(self._pdsphere)
        
        return (sv_t, sv_p)
""","""        return tuple(map(self._sv, (self._tdsphere, self._pdsphere)))
""")
r('rc2',S,"""        vec = np.random.normal(mu, sigma, L) + \\
              1j * np.random.normal(mu, sigma, L)
        return  ScalarCoefs(vec, nmax, mmax)
""","""        draw = functools.partial(np.random.normal, mu, sigma, L)
        vec = draw() + 1j * draw()
        return  ScalarCoefs(vec, nmax, mmax)
""")
r('sphtchk',S,"""    if mmax > nmax:
        raise ValueError(err_msg['nmax_g_mmax'])

    if nmax >= ssphere.nrows - 1:
        raise ValueError(err_msg['nmax_too_lrg'])

    if mmax >= ssphere.ncols / 2:
        raise ValueError(err_msg['mmax_too_lrg'])
""","""    for bad, key in ((mmax > nmax, 'nmax_g_mmax'),
                     (nmax >= ssphere.nrows - 1, 'nmax_too_lrg'),
                     (2 * mmax >= ssphere.ncols, 'mmax_too_lrg')):
        if bad:
            raise ValueError(err_msg[key])
""")
r('opbase',S,"""class ScalarPatternUniform(object):
""","""class _Uniform(object):
    \"\"\"what the uniform patterns share\"\"\"

    def __init__(self, data):
        self._grid = data.shape

    @classmethod
    def _wrap(cls, *data):
        return cls(*data, doublesphere=True)


class ScalarPatternUniform(_Uniform):
""")
r('opbase2',S,"""        if(doublesphere == False):
            self._dsphere = continue_sphere(cdata, 1)
        else:
            self._dsphere = cdata
""","""        if(doublesphere == False):
            self._dsphere = continue_sphere(cdata, 1)
        else:
            self._dsphere = cdata
        super(ScalarPatternUniform, self).__init__(self._dsphere)
""")
r('opbase3',S,"""            elif isinstance(patt, numbers.Number):
                return ScalarPatternUniform(func(self, self._dsphere, patt),
                                            doublesphere=True)
""","""            elif isinstance(patt, numbers.Number):
                return self._wrap(func(self, self._dsphere, patt))
""")
