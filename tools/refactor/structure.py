# Structural refactorings: shared bases, helpers, generators, broadcasting.
R=[]
def r(*a): R.append(a)
S='spherepy/spherepy.py'; V='spherepy/verify.py'; P='spherepy/plot_sphere.py'; O='spherepy/ops.py'
# --- factories -------------------------------------------------------------
r('zc',S,"""    if(coef_type == scalar):
        L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
        vec = np.zeros(L, dtype=np.complex128)
        return  ScalarCoefs(vec, nmax, mmax)
    elif(coef_type == vector):
        L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
        vec1 = np.zeros(L, dtype=np.complex128)
        vec2 = np.zeros(L, dtype=np.complex128)
        return  VectorCoefs(vec1, vec2, nmax, mmax)
    else:
        raise TypeError(err_msg['ukn_coef_t'])
""","""    if coef_type not in (scalar, vector):
        raise TypeError(err_msg['ukn_coef_t'])

    L = (nmax + 1) * (2 * mmax + 1) - mmax * (mmax + 1)
    if coef_type == scalar:
        return ScalarCoefs(np.zeros(L, dtype=complex), nmax, mmax)
    return VectorCoefs(np.zeros(L, complex), np.zeros((L,), complex),
                       nmax, mmax)
""")
r('oc',S,"""    if(coef_type == scalar):
        L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
        vec = np.ones(L, dtype=np.complex128)
        return  ScalarCoefs(vec, nmax, mmax)
    elif(coef_type == vector):
        L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
        vec1 = np.ones(L, dtype=np.complex128)
        vec1[0] = 0
        vec2 = np.ones(L, dtype=np.complex128)
        vec2[0] = 0
        return  VectorCoefs(vec1, vec2, nmax, mmax)
    else:
        raise TypeError(err_msg['ukn_coef_t'])
""","""    L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)

    def _ones(first=1.0):
        vec = np.full(L, 1.0, dtype=np.complex128)
        vec[0] = first
        return vec

    if(coef_type == scalar):
        return ScalarCoefs(_ones(), nmax, mmax)
    if(coef_type == vector):
        return VectorCoefs(_ones(0.0), _ones(first=0.0), nmax, mmax)
    raise TypeError(err_msg['ukn_coef_t'])
""")
r('rc',S,"""    if(coef_type == scalar):
        L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
        vec = np.random.normal(mu, sigma, L) + \\
              1j * np.random.normal(mu, sigma, L)
        return  ScalarCoefs(vec, nmax, mmax)
    elif(coef_type == vector):
        L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
        vec1 = np.random.normal(mu, sigma, L) + \\
              1j * np.random.normal(mu, sigma, L)
        vec1[0] = 0
        vec2 = np.random.normal(mu, sigma, L) + \\
              1j * np.random.normal(mu, sigma, L)
        vec2[0] = 0
        return  VectorCoefs(vec1, vec2, nmax, mmax)
    else:
        raise TypeError(err_msg['ukn_coef_t'])
""","""    def draw(size):
        re = np.random.normal(mu, sigma, size)
        im = np.random.normal(loc=mu, scale=sigma, size=size)
        return re + 1j * im

    L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
    if(coef_type == scalar):
        return ScalarCoefs(draw(L), nmax, mmax)
    elif(coef_type == vector):
        vec1, vec2 = draw(L), draw(L)
        vec1[0] = vec2[0] = 0
        return VectorCoefs(vec1, vec2, nmax, mmax)
    else:
        raise TypeError(err_msg['ukn_coef_t'])
""")
r('zp',S,"""    if(patt_type == scalar):
        cdata = np.zeros((2 * nrows - 2, ncols), dtype=np.complex128)
        return ScalarPatternUniform(cdata, doublesphere=True)

    elif(patt_type == vector):
        tcdata = np.zeros((2 * nrows - 2, ncols), dtype=np.complex128)
        pcdata = np.zeros((2 * nrows - 2, ncols), dtype=np.complex128)
        return TransversePatternUniform(tcdata, pcdata, doublesphere=True)

    else:
        raise TypeError(err_msg['ukn_patt_t'])
""","""    shape = (2 * (nrows - 1), ncols)
    cdata = np.zeros(shape, dtype=np.complex128)
    if(patt_type == scalar):
        return ScalarPatternUniform(cdata, True)
    elif(patt_type == vector):
        return TransversePatternUniform(cdata, np.zeros_like(cdata),
                                        doublesphere=True)
    raise TypeError(err_msg['ukn_patt_t'])
""")
r('op',S,"""    if(patt_type == scalar):
        cdata = np.ones((2 * nrows - 2, ncols), dtype=np.complex128)
        return ScalarPatternUniform(cdata, doublesphere=True)

    elif(patt_type == vector):
        tcdata = np.ones((2 * nrows - 2, ncols), dtype=np.complex128)
        pcdata = np.ones((2 * nrows - 2, ncols), dtype=np.complex128)
        return TransversePatternUniform(tcdata, pcdata, doublesphere=True)

    else:
        raise TypeError(err_msg['ukn_patt_t'])
""","""    makers = {scalar: lambda: ScalarPatternUniform(
                  np.ones((2 * nrows - 2, ncols), dtype=np.complex128),
                  doublesphere=True),
              vector: lambda: TransversePatternUniform(
                  np.ones((2 * nrows - 2, ncols), dtype=np.complex128),
                  np.ones((2 * nrows - 2, ncols), dtype=np.complex128),
                  doublesphere=True)}
    if patt_type not in makers:
        raise TypeError(err_msg['ukn_patt_t'])
    return makers[patt_type]()
""")
r('rp',S,"""    if(patt_type == scalar):
        vec = np.random.normal(0.0, 1.0, nrows * ncols) + \\
              1j * np.random.normal(0.0, 1.0, nrows * ncols)
        return ScalarPatternUniform(vec.reshape((nrows, ncols)),
                                    doublesphere=False)

    elif(patt_type == vector):
        vec1 = np.random.normal(0.0, 1.0, nrows * ncols) + \\
              1j * np.random.normal(0.0, 1.0, nrows * ncols)
        vec2 = np.random.normal(0.0, 1.0, nrows * ncols) + \\
              1j * np.random.normal(0.0, 1.0, nrows * ncols)
        return TransversePatternUniform(vec1.reshape((nrows, ncols)),
                                    vec2.reshape((nrows, ncols)),
                                    doublesphere=False)

    else:
        raise TypeError(err_msg['ukn_patt_t'])
""","""    def sample():
        vec = (np.random.normal(0.0, 1.0, nrows * ncols) +
               1j * np.random.normal(0.0, 1.0, nrows * ncols))
        return np.reshape(vec, (nrows, ncols))

    if(patt_type == scalar):
        return ScalarPatternUniform(sample())
    elif(patt_type == vector):
        theta = sample()
        phi = sample()
        return TransversePatternUniform(theta, phi)
    else:
        raise TypeError(err_msg['ukn_patt_t'])
""")
# --- abs / mag ---------------------------------------------------------------
r('mag',S,"""    if isinstance(sobj, ScalarPatternUniform):
        return np.abs(sobj.array)
    elif isinstance(sobj, ScalarCoefs):
        return ScalarCoefs(np.abs(sobj._vec), sobj.nmax, sobj.mmax)
    elif isinstance(sobj, TransversePatternUniform):
        return np.sqrt(mag2(sobj))
    elif isinstance(sobj, VectorCoefs):
        return ScalarCoefs(np.sqrt(mag2(sobj)._vec),
                           sobj.nmax, sobj.mmax)
    else:
        raise TypeError(err_msg['uknown_typ'])
""","""    if isinstance(sobj, (ScalarPatternUniform, ScalarCoefs)):
        return abs(sobj)
    squared = mag2(sobj)
    if isinstance(squared, ScalarCoefs):
        squared._vec = squared._vec ** 0.5
        return squared
    return squared ** 0.5
""")
r('mag2',S,"""    if isinstance(sobj, ScalarPatternUniform):
        return np.abs(sobj.array) ** 2
    elif isinstance(sobj, ScalarCoefs):
        return ScalarCoefs(np.abs(sobj._vec) ** 2, sobj.nmax, sobj.mmax)
    elif isinstance(sobj, TransversePatternUniform):
        return np.abs(sobj.theta) ** 2 + np.abs(sobj.phi) ** 2
    elif isinstance(sobj, VectorCoefs):
        return ScalarCoefs(np.abs(sobj.scoef1._vec) ** 2 + \\
                           np.abs(sobj.scoef2._vec) ** 2,
                           sobj.nmax, sobj.mmax)
""","""    if isinstance(sobj, ScalarPatternUniform):
        a = sobj.array
        return np.abs(a) * np.abs(a)
    elif isinstance(sobj, ScalarCoefs):
        return ScalarCoefs(np.square(np.abs(sobj._vec)), sobj.nmax, sobj.mmax)
    elif isinstance(sobj, TransversePatternUniform):
        t, p = sobj.array
        return t.real ** 2 + t.imag ** 2 + p.real ** 2 + p.imag ** 2
    elif isinstance(sobj, VectorCoefs):
        total = np.zeros(len(sobj.scoef1._vec))
        for part in (sobj.scoef1, sobj.scoef2):
            total += np.abs(part._vec) ** 2
        return ScalarCoefs(total, sobj.nmax, sobj.mmax)
""")
r('array',S,"""    if isinstance(patt, ScalarPatternUniform):
        return patt.array
    elif isinstance(patt, TransversePatternUniform):
        return patt.array
    else:
        raise TypeError(err_msg['uknown_typ'])
""","""    if not isinstance(patt, (ScalarPatternUniform, TransversePatternUniform)):
        raise TypeError(err_msg['uknown_typ'])
    return patt.array
""")
# --- patterns ------------------------------------------------------------------
r('spop',S,"""            if isinstance(patt, ScalarPatternUniform):
                if self._dsphere.shape == patt._dsphere.shape:
                    return ScalarPatternUniform(func(self, self._dsphere,
                                                     patt._dsphere),
                                                doublesphere=True)
                else:
                    raise ValueError(err_msg['SP_sz_msmtch'] % \\
                                            (self.nrows, self.ncols,
                                            patt.nrows, patt.ncols))
        
            elif isinstance(patt, numbers.Number):
                return ScalarPatternUniform(func(self, self._dsphere, patt),
                                            doublesphere=True)
            else:
                raise TypeError(err_msg['no_combi_SP'])
""","""            other = patt
            if isinstance(patt, ScalarPatternUniform):
                if self.shape != patt.shape:
                    raise ValueError("%s %s" % (self.shape, patt.shape))
                other = patt._dsphere
            elif not isinstance(patt, numbers.Number):
                raise TypeError(err_msg['no_combi_SP'])

            return type(self)(func(self, self._dsphere, other), True)
""")
r('spdiv',S,"""    @_scalar_pattern_uniform_op_left
    def __div__(self, a, b):
        if isinstance(b, numbers.Number):
            if b == 0:
                raise ZeroDivisionError()
            return a / b
        else:
            return a / b

    @_scalar_pattern_uniform_op_right
    def __rdiv__(self, a, b):
        if isinstance(a, numbers.Number):
            if a == 0:
                raise ZeroDivisionError()
            return b / a
        else:
            return b / a 

    @_scalar_pattern_uniform_op_left
    def __truediv__(self, a, b):
        if isinstance(b, numbers.Number):
            if b == 0:
                raise ZeroDivisionError()
            return a / b
        else:
            return a / b

    @_scalar_pattern_uniform_op_right
    def __rtruediv__(self, a, b):
        if isinstance(a, numbers.Number):
            if a == 0:
                raise ZeroDivisionError()
            return b / a
        else:
            return b / a  
""","""    @_scalar_pattern_uniform_op_left
    def __truediv__(self, a, b):
        if isinstance(b, numbers.Number) and b == 0:
            raise ZeroDivisionError()
        return a / b

    @_scalar_pattern_uniform_op_right
    def __rtruediv__(self, a, b):
        return b / a

    __div__ = __truediv__
    __rdiv__ = __rtruediv__
""")
r('vpop',S,"""            if isinstance(patt, TransversePatternUniform):
                if self._tdsphere.shape == patt._tdsphere.shape:
                    return TransversePatternUniform(func(self, self._tdsphere,
                                                     patt._tdsphere),
                                                func(self, self._pdsphere,
                                                     patt._pdsphere),
                                                doublesphere=True)
                else:
                    raise ValueError(err_msg['VP_sz_msmtch'] % \\
                                            (self.nrows, self.ncols,
                                            patt.nrows, patt.ncols))
        
            elif isinstance(patt, numbers.Number):
                return TransversePatternUniform(func(self, self._tdsphere, patt),
                                            func(self, self._pdsphere, patt),
                                            doublesphere=True)
            else:
                raise TypeError(err_msg['no_combi_VP'])
""","""            if isinstance(patt, TransversePatternUniform):
                if self._tdsphere.shape != patt._tdsphere.shape:
                    raise ValueError(err_msg['VP_sz_msmtch'] % \\
                                            (self.nrows, self.ncols,
                                            patt.nrows, patt.ncols))
                pairs = zip(self.doublesphere, patt.doublesphere)
            elif isinstance(patt, numbers.Number):
                pairs = [(part, patt) for part in self.doublesphere]
            else:
                raise TypeError(err_msg['no_combi_VP'])
            theta, phi = [func(self, a, b) for a, b in pairs]
            return TransversePatternUniform(theta, phi, doublesphere=True)
""")
r('vprop',S,"""    @property
    def array(self):
        return (self._tdsphere[0:self.nrows, :],
                self._pdsphere[0:self.nrows, :])

    @property
    def theta(self):
        return self._tdsphere[0:self.nrows, :]

    @property
    def phi(self):
        return self._pdsphere[0:self.nrows, :]
""","""    def _top(self, data):
        rows = data.shape[0] // 2 + 1
        return data[:rows]

    @property
    def array(self):
        return (self.theta, self.phi)

    @property
    def theta(self):
        return self._top(self._tdsphere)

    @property
    def phi(self):
        return self._top(self._pdsphere)
""")
r('nrows',S,"""        return int(self._dsphere.shape[0] / 2) + 1
""","""        rows, _ = self._dsphere.shape
        return rows // 2 + 1
""")
r('sym',S,"""        if self.single_val < 1e-14:
            return True 
        else:
            return False
""","""        return bool(self.single_val < 1e-14)
""")
r('vsym',S,"""        if (self.single_val[0] < 1e-13) and (self.single_val[1] < 1e-13):
            return True 
        else:
            return False
""","""        return all(sv < 1e-13 for sv in self.single_val)
""")
r('spinit',S,"""        if(doublesphere == False):
            self._dsphere = continue_sphere(cdata, 1)
        else:
            self._dsphere = cdata
""","""        self._dsphere = cdata if doublesphere else continue_sphere(cdata, 1)
""")
r('dswhere',S,"""    for n in xrange(0, nrows):
        for m in xrange(0, ncols):
            s = sym * cdata[np.mod(nrows - n, nrows),
                          np.mod(int(np.floor(ncols / 2)) + m, ncols)]
            t = cdata[n, m]

            if s == 0 or t == 0:
                ddata[n, m] = s + t
            else:
                ddata[n, m] = (s + t) / 2
""","""    half = ncols // 2
    for n in xrange(0, nrows):
        src = (nrows - n) % nrows
        for m in xrange(0, ncols):
            pair = sym * cdata[src, (half + m) % ncols] + cdata[n, m]
            both = cdata[src, (half + m) % ncols] != 0 and cdata[n, m] != 0
            ddata[n, m] = pair / 2 if both else pair
""")
# --- coefficients -------------------------------------------------------------
r('mixin',S,"""class VectorCoefs(object):
""","""class _Bounds(object):
    @property
    def nmax(self):
        return self._nmax

    @property
    def mmax(self):
        return self._mmax


class VectorCoefs(_Bounds):
""")
r('mixin2',S,"""        self._nmax = nmax
        self._mmax = mmax

    @property
    def nmax(self):
        \"\"\"Largest n value.\"\"\"
        return self._nmax

    @property
    def mmax(self):
        \"\"\"Largest abs(m) value.\"\"\"
        return self._mmax

    @property
    def size(self):
        \"\"\"The number of modes in the structure\"\"\"
        N = self.nmax + 1;
        NC = N + self.mmax * (2 * N - self.mmax - 1);
        assert NC == len(self.scoef1._vec)
""","""        self._nmax = nmax
        self._mmax = mmax

    @property
    def size(self):
        \"\"\"The number of modes in the structure\"\"\"
        N = self.nmax + 1;
        NC = N + self.mmax * (2 * N - self.mmax - 1);
        assert NC == len(self.scoef1._vec)
""")
r('vget',S,"""                new_nmax = arg[0].stop
                if new_nmax > self.mmax:
                    new_mmax = self.mmax
                else:
                    new_mmax = new_nmax
                return VectorCoefs(self.scoef1[0:new_nmax, :]._vec,
                                   self.scoef2[0:new_nmax, :]._vec,
                                   new_nmax, new_mmax)
""","""                new_nmax = arg[0].stop
                first, second = (c[0:new_nmax, :]
                                 for c in (self.scoef1, self.scoef2))
                return VectorCoefs(first._vec, second._vec,
                                   first.nmax, first.mmax)
""")
r('vset',S,"""        if isinstance(val, (list, tuple)):
            if len(val) != 2:
                raise AttributeError(err_msg['val_2tuple'])
        else:
            raise AttributeError(err_msg['val_2tuple'])
""","""        if not isinstance(val, (list, tuple)) or len(val) != 2:
            raise AttributeError(err_msg['val_2tuple'])
""")
r('vset2',S,"""            try:
                self.scoef1[n, m] = val[0]
                self.scoef2[n, m] = val[1]
            except IndexError:
                AttributeError(err_msg['set_vc_val'])
""","""            for coefs, v in zip((self.scoef1, self.scoef2), val):
                coefs[n, m] = v
""")
r('vcopy',S,"""        vec1 = np.copy(self.scoef1._vec)
        vec2 = np.copy(self.scoef2._vec)
        return VectorCoefs(vec1, vec2, self.nmax, self.mmax)
""","""        s1, s2 = self.scoef1.copy(), self.scoef2.copy()
        return type(self)(s1._vec, s2._vec, self.nmax, self.mmax)
""")
r('pretty',S,"""    while len(sa) < 9:
        sa.append("")

    sa = [sa[n].center(13) for n in range(0, 9)]

    print(pretty_display_string.format(sa[0], sa[1], sa[2],
                                       sa[3], sa[4], sa[5],
                                       sa[6], sa[7], sa[8]))
""","""    sa += [""] * (9 - len(sa))
    sa = [s.center(13) for s in sa[:9]]
    print(pretty_display_string.format(*sa))
""")
r('cmp',S,"""    num = np.sum(np.abs(sc1._vec - sc2._vec))
    den = np.sum(np.abs(sc1._vec))
    return num / den
""","""    den = np.abs(sc1._vec).sum()
    return np.abs(sc2._vec - sc1._vec).sum() / den
""")
# --- verify / plot ---------------------------------------------------------------
r('ver',V,"""    diff = fsc - sc
    
    return (sp.L2_coef(diff) , sp.LInf_coef(diff),
            sp.L2_coef(diff) / sp.L2_coef(fsc),
            sp.LInf_coef(diff) / sp.LInf_coef(fsc))
""","""    return _errors(fsc - sc, fsc, sp.L2_coef, sp.LInf_coef)
""")
r('ver0',V,"""def verify_spht(pattfile, scoeffile):
""","""def _errors(diff, ref, *norms):
    absolute = [norm(diff) for norm in norms]
    relative = [norm(diff) / norm(ref) for norm in norms]
    return tuple(absolute + relative)

def verify_spht(pattfile, scoeffile):
""")
r('ver2',V,"""    diff = vfpatt - vpatt
    
    return (sp.L2_patt(diff), sp.LInf_patt(diff),
            sp.L2_patt(diff) / sp.L2_patt(vfpatt),
            sp.LInf_patt(diff) / sp.LInf_patt(vfpatt))
""","""    diff = vfpatt - vpatt
    l2, linf = sp.L2_patt(diff), sp.LInf_patt(diff)

    return l2, linf, l2 / sp.L2_patt(vfpatt), linf / sp.LInf_patt(vfpatt)
""")
r('plotc',P,"""    z = coefs._array_2d_repr()
    for n in xrange(0, coefs.nmax + 1):
        for m in xrange(1, coefs.mmax + 1):
            if np.abs(m) > n:
                z[n, m + coefs.mmax] = np.inf
                z[n, -m + coefs.mmax] = np.inf
""","""    z = coefs._array_2d_repr()
    mid = coefs.mmax
    for n in xrange(0, coefs.nmax + 1):
        for m in xrange(n + 1, mid + 1):
            z[n, mid + m] = z[n, mid - m] = np.inf
""")
r('pcol',P,"""    z = np.abs(A)
    el = np.zeros((1, 2 * coefs.mmax + 1), dtype=np.float64)
    z = np.concatenate((z, el), axis=0)
    el = np.zeros((coefs.nmax + 2, 1), dtype=np.float64)
    z = np.concatenate((z, el), axis=1)
""","""    z = np.zeros((A.shape[0] + 1, A.shape[1] + 1), dtype=np.float64)
    z[:-1, :-1] = np.abs(A)
""")
r('pmag',P,"""    v = np.array(T[:, 0]).reshape(-1, 1)
    T = np.hstack((T, v))

    X = T * np.cos(phi) * np.sin(theta)
    Y = T * np.sin(phi) * np.sin(theta)
    Z = T * np.cos(theta)
""","""    T = np.concatenate((T, T[:, 0:1]), axis=1)
    rho = T * np.sin(theta)

    X, Y, Z = rho * np.cos(phi), rho * np.sin(phi), T * np.cos(theta)
""")
# --- ops ---------------------------------------------------------------------------
