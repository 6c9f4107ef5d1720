"""Refactorings of the operators, pattern classes, transforms and norms in the styles a reviewer might suggest."""
F = 'spherepy/spherepy.py'
R = []


def r(name, old, new, f=F):
    R.append((name, f, old, new))


r('sc_right', '''            if isinstance(scoef, numbers.Number):
                return ScalarCoefs(func(self, self._vec, scoef),
                                   self.nmax, self.mmax)
            else:
                raise TypeError(err_msg['no_combi_SC'])
        return verif
''', '''            if not isinstance(scoef, numbers.Number):
                raise TypeError(err_msg['no_combi_SC'])
            vec = func(self, self._vec, scoef)
            return ScalarCoefs(vec, self.nmax, self.mmax)
        return verif
''')
r('vc_right', '''            if isinstance(vcoef, numbers.Number):
                return VectorCoefs(func(self, self.scoef1._vec, vcoef),
                                   func(self, self.scoef2._vec, vcoef),
                                   self.nmax, self.mmax)
            else:
                raise TypeError(err_msg['no_combi_VC'])
        return verif
''', '''            if not isinstance(vcoef, numbers.Number):
                raise TypeError(err_msg['no_combi_VC'])
            v1, v2 = [func(self, sc._vec, vcoef) for sc in (self.scoef1, self.scoef2)]
            return VectorCoefs(v1, v2, self.nmax, self.mmax)
        return verif
''')
r('sp_right', '''            if isinstance(patt, numbers.Number):
                return ScalarPatternUniform(func(self, self._dsphere, patt),
                                   doublesphere=True)
            else:
                raise TypeError(err_msg['no_combi_SP'])
        return verif
''', '''            if not isinstance(patt, numbers.Number):
                raise TypeError(err_msg['no_combi_SP'])
            return ScalarPatternUniform(func(self, self.doublesphere, patt), True)
        return verif
''')
r('vp_right', '''            if isinstance(patt, numbers.Number):
                return TransversePatternUniform(func(self, self._tdsphere, patt),
                                            func(self, self._pdsphere, patt),
                                            doublesphere=True)
            else:
                raise TypeError(err_msg['no_combi_VP'])
        return verif

    @_vector_pattern_uniform_op_left''', '''            if isinstance(patt, numbers.Number):
                parts = tuple(func(self, d, patt) for d in self.doublesphere)
                return TransversePatternUniform(*parts, doublesphere=True)
            raise TypeError(err_msg['no_combi_VP'])
        return verif

    @_vector_pattern_uniform_op_left''')
r('sc_sub', '''    @_scalar_coef_op_left
    def __sub__(self, a, b):
        return a - b
''', '''    @_scalar_coef_op_left
    def __sub__(self, a, b):
        return np.subtract(a, b)
''')
r('sc_sub2', '''    @_scalar_coef_op_left
    def __sub__(self, a, b):
        return a - b
''', '''    def __sub__(self, other):
        return self + (-1) * other
''')
r('sc_rsub', '''    @_scalar_coef_op_right
    def __rsub__(self, a, b):
        return b - a
''', '''    @_scalar_coef_op_right
    def __rsub__(self, a, b):
        return -(a - b)
''')
r('sc_tdiv', '''    @_scalar_coef_op_left
    def __truediv__(self, a, b):
        if isinstance(b, numbers.Number):
            if b == 0:
                raise ZeroDivisionError()
            return a / b
        else:
            return a / b
''', '''    @_scalar_coef_op_left
    def __truediv__(self, a, b):
        if isinstance(b, numbers.Number) and b == 0:
            raise ZeroDivisionError()
        return a / b
''')
r('sc_tdiv2', '''    @_scalar_coef_op_left
    def __truediv__(self, a, b):
        if isinstance(b, numbers.Number):
            if b == 0:
                raise ZeroDivisionError()
            return a / b
        else:
            return a / b
''', '''    __truediv__ = __div__
''')
r('sc_tdiv3', '''    @_scalar_coef_op_left
    def __truediv__(self, a, b):
        if isinstance(b, numbers.Number):
            if b == 0:
                raise ZeroDivisionError()
            return a / b
        else:
            return a / b
''', '''    @_scalar_coef_op_left
    def __truediv__(self, a, b):
        return ScalarCoefs._checked_div(a, b)

    @staticmethod
    def _checked_div(a, b):
        if not isinstance(b, numbers.Number):
            return a / b
        if b == 0:
            raise ZeroDivisionError()
        return np.true_divide(a, b)
''')
r('vc_rtdiv', '''    @_vector_coef_op_right
    def __rtruediv__(self, a, b):
        if isinstance(a, numbers.Number):
            if a == 0:
                raise ZeroDivisionError()
            return b / a
        else:
            return b / a  
''', '''    @_vector_coef_op_right
    def __rtruediv__(self, a, b):
        return b / a
''')
r('tpu_init', '''        if(doublesphere == False):
            self._tdsphere = continue_sphere(tcdata, -1)
            self._pdsphere = continue_sphere(pcdata, -1)
        else:
            self._tdsphere = tcdata
            self._pdsphere = pcdata
''', '''        if not doublesphere:
            tcdata, pcdata = [continue_sphere(c, -1) for c in (tcdata, pcdata)]

        self._tdsphere, self._pdsphere = tcdata, pcdata
''')
r('tpu_td', '''    @property
    def array(self):
        return (self._tdsphere[0:self.nrows, :],
                self._pdsphere[0:self.nrows, :])

    @property
    def theta(self):
        return self._tdsphere[0:self.nrows, :]

    @property
    def phi(self):
        return self._pdsphere[0:self.nrows, :]
''', '''    def _north(self, dsphere):
        return dsphere[:self.nrows]

    @property
    def array(self):
        return (self.theta, self.phi)

    @property
    def theta(self):
        return self._north(self._tdsphere)

    @property
    def phi(self):
        return self._north(self._pdsphere)
''')
r('tpu_shape', '''    @property
    def nrows(self):
        return int(self._tdsphere.shape[0] / 2) + 1 

    @property
    def ncols(self):
        return self._tdsphere.shape[1]

    @property
    def shape(self):
        return (self.nrows, self.ncols)
''', '''    @property
    def shape(self):
        drows, ncols = self._tdsphere.shape
        return (drows // 2 + 1, ncols)

    @property
    def nrows(self):
        return self.shape[0]

    @property
    def ncols(self):
        return self.shape[1]
''')
r('spu_cdata', '''        return self._dsphere[0:self.nrows, :]

    @property
    def cdata(self):
        """Return the NumPy array."""

        return self._dsphere[0:self.nrows, :]
''', '''        return self.cdata

    @property
    def cdata(self):
        """Return the NumPy array."""

        return self.doublesphere[:self.nrows, ...]
''')
r('vsize', '''        N = self.nmax + 1;
        NC = N + self.mmax * (2 * N - self.mmax - 1);
        assert NC == len(self.scoef1._vec)
        assert NC == len(self.scoef2._vec)
        return NC
''', '''        NC = self.scoef1.size
        assert NC == self.scoef2.size
        return NC
''')
r('vinit', '''        N = nmax + 1;
        NC = N + mmax * (2 * N - mmax - 1);
        if NC != len(vec1):
            raise ValueError(err_msg['vcoef_size'])

        # There are no monopoles for structure VectorCoefs
        vec1[0] = 0 + 1j*0
        vec2[0] = 0 + 1j*0

        self.scoef1 = ScalarCoefs(vec1, nmax, mmax)
        self.scoef2 = ScalarCoefs(vec2, nmax, mmax)
''', '''        count = sum(nmax + 1 - np.abs(m) for m in xrange(-mmax, mmax + 1))
        if count != len(vec1):
            raise ValueError(err_msg['vcoef_size'])

        # There are no monopoles for structure VectorCoefs
        for vec in (vec1, vec2):
            vec[0] = 0j

        self.scoef1, self.scoef2 = (ScalarCoefs(vec, nmax, mmax)
                                    for vec in (vec1, vec2))
''')
r('vcopy', '''        vec1 = np.copy(self.scoef1._vec)''', '''        vec1 = self.scoef1._vec.copy()''')
r('spht_slow', '''    fdata = np.fft.fft2(ssphere._dsphere) / (nrows * ncols)
    ops.fix_even_row_data_fc(fdata)
    
    fdata_extended = np.zeros([nrows + 2, ncols], dtype=np.complex128)

    ops.pad_rows_fdata(fdata, fdata_extended)

    ops.sin_fc(fdata_extended)
    
    sc = pysphi.fc_to_sc(fdata_extended, nmax, mmax)
''', '''    fc = np.fft.fft2(ssphere._dsphere)
    fc /= ssphere._dsphere.size
    ops.fix_even_row_data_fc(fc)

    fc_ext = np.zeros((nrows + 2, ncols), dtype=fc.dtype)
    ops.pad_rows_fdata(fc, fc_ext)
    ops.sin_fc(fc_ext)

    sc = pysphi.fc_to_sc(fc_ext, nmax, mmax)
''')
r('spht_helper', '''    fdata = np.fft.fft2(ssphere._dsphere) / (dnrows * ncols)
    ops.fix_even_row_data_fc(fdata)
    
    fdata_extended = np.zeros([dnrows + 2, ncols], dtype=np.complex128)

    ops.pad_rows_fdata(fdata, fdata_extended)

    ops.sin_fc(fdata_extended)
    
    N = nmax + 1;
    NC = N + mmax * (2 * N - mmax - 1);
    sc = np.zeros(NC, dtype=np.complex128)
    # check if we are using c extended versions of the code or not
    if use_cext: 
        csphi.fc_to_sc(fdata_extended, sc, nmax, mmax)
    else:   
        sc = pysphi.fc_to_sc(fdata_extended, nmax, mmax)
                                
    return ScalarCoefs(sc, nmax, mmax)
''', '''    def extend(data):
        fc = np.fft.fft2(data) / (dnrows * ncols)
        ops.fix_even_row_data_fc(fc)
        out = np.zeros([dnrows + 2, ncols], dtype=np.complex128)
        ops.pad_rows_fdata(fc, out)
        return out

    fdata_extended = extend(ssphere._dsphere)
    ops.sin_fc(fdata_extended)

    if not use_cext:
        return ScalarCoefs(pysphi.fc_to_sc(fdata_extended, nmax, mmax), nmax, mmax)

    coefs = zeros_coefs(nmax, mmax)
    csphi.fc_to_sc(fdata_extended, coefs._vec, nmax, mmax)
    return coefs
''')
r('spht_def', '''    if nmax == None:
        nmax = ssphere.nrows - 2 
        if mmax == None:
            mmax = int(ssphere.ncols / 2) - 1
    elif mmax == None:
        mmax = nmax

    if mmax > nmax:
        raise ValueError(err_msg['nmax_g_mmax'])

    if nmax >= ssphere.nrows - 1:
        raise ValueError(err_msg['nmax_too_lrg'])

    if mmax >= ssphere.ncols / 2:
        raise ValueError(err_msg['mmax_too_lrg'])

    dnrows = ssphere._dsphere.shape[0]
    ncols = ssphere._dsphere.shape[1]

    if np.mod(ncols, 2) == 1:
        raise ValueError(err_msg['ncols_even'])
''', '''    nrows, ncols = ssphere.shape
    if mmax is None:
        mmax = ncols // 2 - 1 if nmax is None else nmax
    if nmax is None:
        nmax = nrows - 2

    for bad, msg in ((mmax > nmax, 'nmax_g_mmax'),
                     (nmax > nrows - 2, 'nmax_too_lrg'),
                     (2 * mmax >= ncols, 'mmax_too_lrg'),
                     (ncols % 2 != 0, 'ncols_even')):
        if bad:
            raise ValueError(err_msg[msg])

    dnrows = ssphere.doublesphere.shape[0]
''')
r('vspht_helper', '''    ft = np.fft.fft2(vsphere._tdsphere) / (dnrows * ncols)
    ops.fix_even_row_data_fc(ft)
    
    ft_extended = np.zeros([dnrows + 2, ncols], dtype=np.complex128)
    ops.pad_rows_fdata(ft, ft_extended)
    
    pt = np.fft.fft2(vsphere._pdsphere) / (dnrows * ncols)
    ops.fix_even_row_data_fc(pt)
    
    pt_extended = np.zeros([dnrows + 2, ncols], dtype=np.complex128)
    ops.pad_rows_fdata(pt, pt_extended)
    
    ftmp = np.copy(ft_extended)
    ptmp = np.copy(pt_extended)
    Lf1 = ops.sinLdot_fc(ft_extended, pt_extended)
    Lf2 = ops.sinLdot_fc(-1j * ptmp, 1j * ftmp)
''', '''    extended = []
    for dsphere in vsphere.doublesphere:
        fc = np.fft.fft2(dsphere) / (dnrows * ncols)
        ops.fix_even_row_data_fc(fc)
        ext = np.zeros([dnrows + 2, ncols], dtype=np.complex128)
        ops.pad_rows_fdata(fc, ext)
        extended.append(ext)

    ft, pt = extended
    Lf2 = ops.sinLdot_fc(-1j * pt, 1j * ft)
    Lf1 = ops.sinLdot_fc(ft, pt)
''')
r('vspht_nvec', '''    nvec = np.zeros(nmax + 1, dtype=np.complex128)

    for n in xrange(1, nmax + 1):
        nvec[n] = 1.0 / np.sqrt(n * (n + 1.0))

    vcoefs.scoef1.window(nvec)
    vcoefs.scoef2.window(nvec)
        
    return vcoefs
''', '''    nvec = np.array([0] + [1 / np.sqrt(n * (n + 1)) for n in xrange(1, nmax + 1)],
                    dtype=np.complex128)

    for scoef in (vcoefs.scoef1, vcoefs.scoef2):
        scoef.window(nvec)

    return vcoefs
''')
r('vspht_nvec2', '''    nvec = np.zeros(nmax + 1, dtype=np.complex128)

    for n in xrange(1, nmax + 1):
        nvec[n] = 1.0 / np.sqrt(n * (n + 1.0))

    vcoefs.scoef1.window(nvec)
''', '''    n = np.arange(nmax + 1)
    n[0] = 1
    nvec = 1.0 / np.sqrt(n * (n + 1.0))
    nvec[0] = 0.0

    vcoefs.scoef1.window(nvec)
''')
r('vispht_nvec', '''    nvec = np.zeros(vcoefs.nmax + 1, dtype=np.complex128)
    for n in xrange(1, vcoefs.nmax + 1):
        nvec[n] = 1.0 / np.sqrt(n * (n + 1.0))

    sc1 = vcoefs.scoef1.copy()
    sc2 = vcoefs.scoef2.copy()

    sc1.window(nvec)
    sc2.window(nvec)
''', '''    scaled = vcoefs.copy()
    sc1, sc2 = scaled.scoef1, scaled.scoef2

    n = np.arange(1, vcoefs.nmax + 1)
    weights = np.concatenate([np.zeros(1), 1.0 / np.sqrt(n * (n + 1.0))])
    sc1.window(weights)
    sc2.window(weights)
''')
r('vispht_f', '''    f1 = ops.L_fc(fdata1)
    f2 = ops.L_fc(fdata2)

    ftheta = f1[0] - 1j * f2[1]
    fphi = f1[1] + 1j * f2[0]
    
    dtheta = np.fft.ifft2(ftheta) * dnrows * ncols
    dphi = np.fft.ifft2(fphi) * dnrows * ncols

    return TransversePatternUniform(dtheta, dphi, doublesphere=True)
''', '''    (t1, p1), (t2, p2) = ops.L_fc(fdata1), ops.L_fc(fdata2)

    synth = lambda f: np.fft.ifft2(f) * (dnrows * ncols)
    return TransversePatternUniform(synth(t1 - 1j * p2), synth(p1 + 1j * t2),
                                    doublesphere=True)
''')
r('vispht_min', '''    if nrows < vcoefs.nmax + 2:
        raise ValueError(err_msg['inverse_terr'])

    if ncols < 2 * vcoefs.mmax + 2:
        raise ValueError(err_msg['inverse_terr'])

''', '''    min_rows, min_cols = vcoefs.nmax + 2, 2 * (vcoefs.mmax + 1)
    if nrows < min_rows or ncols < min_cols:
        raise ValueError(err_msg['inverse_terr'])

''')
r('ispht_norm', '''    ds = np.fft.ifft2(fdata) * dnrows * ncols

    return ScalarPatternUniform(ds, doublesphere=True)

def vispht''', '''    ds = np.fft.ifft2(fdata, norm='forward')

    return ScalarPatternUniform(ds, doublesphere=True)

def vispht''')
r('ispht_axes', '''    ds = np.fft.ifft2(fdata) * dnrows * ncols

    return ScalarPatternUniform(ds, doublesphere=True)

def vispht''', '''    ds = np.fft.ifft(np.fft.ifft(fdata, axis=0), axis=1)
    ds *= dnrows * ncols

    return ScalarPatternUniform(ds, doublesphere=True)

def vispht''')
r('ispht_slow', '''    dnrows = 2 * nrows - 2

    if np.mod(ncols, 2) == 1:
        raise ValueError(err_msg['ncols_even'])

    fdata = pysphi.sc_to_fc(scoefs._vec,
                            scoefs._nmax,
                            scoefs._mmax,
                            dnrows, ncols)
    
    ds = np.fft.ifft2(fdata) * dnrows * ncols

    return ScalarPatternUniform(ds, doublesphere=True)

def L2_coef''', '''    if ncols & 1:
        raise ValueError(err_msg['ncols_even'])

    shape = (2 * (nrows - 1), ncols)
    fdata = pysphi.sc_to_fc(scoefs._vec, scoefs.nmax, scoefs.mmax, *shape)
    return ScalarPatternUniform(np.fft.ifft2(fdata) * np.prod(shape), True)

def L2_coef''')
r('l2', '''        l1 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
        l2 = np.sqrt(np.sum(np.abs(coef.scoef2._vec) ** 2))
        return np.sqrt(l1 ** 2 + l2 ** 2)
''', '''        return np.hypot(L2_coef(coef.scoef1), L2_coef(coef.scoef2))
''')
r('l2b', '''        return np.sqrt(np.sum(np.abs(coef._vec) ** 2))
''', '''        return np.linalg.norm(coef._vec)
''')
r('l2c', '''        return np.sqrt(np.sum(np.abs(patt._dsphere) ** 2))
''', '''        d = patt._dsphere
        return np.sqrt((d.real ** 2 + d.imag ** 2).sum())
''')
r('l2d', '''        return np.sqrt(np.sum(np.abs(coef._vec) ** 2))
''', '''        return np.sqrt(np.vdot(coef._vec, coef._vec).real)
''')
r('linf', '''        return np.max(np.abs(coef._vec))
''', '''        return np.abs(coef._vec).max()
''')
r('linf2', '''        l1 = np.amax(np.abs(patt._tdsphere))
        l2 = np.amax(np.abs(patt._pdsphere))
        return np.sqrt(l1 ** 2 + l2 ** 2)
''', '''        peaks = [np.max(np.abs(d)) for d in patt.doublesphere]
        return np.sqrt(sum(p ** 2 for p in peaks))
''')
r('mag2', '''        return np.abs(sobj.theta) ** 2 + np.abs(sobj.phi) ** 2
''', '''        return sum(np.abs(c) ** 2 for c in sobj.array)
''')
r('mag2b', '''        return ScalarCoefs(np.abs(sobj.scoef1._vec) ** 2 + \\
                           np.abs(sobj.scoef2._vec) ** 2,
                           sobj.nmax, sobj.mmax)
''', '''        return mag2(sobj.scoef1) + mag2(sobj.scoef2)
''')
r('magb', '''        return np.sqrt(mag2(sobj))
    elif isinstance(sobj, VectorCoefs):
        return ScalarCoefs(np.sqrt(mag2(sobj)._vec),
                           sobj.nmax, sobj.mmax)
''', '''        return np.sqrt(np.abs(sobj.theta) ** 2 + np.abs(sobj.phi) ** 2)
    elif isinstance(sobj, VectorCoefs):
        res = mag2(sobj)
        res._vec = np.sqrt(res._vec)
        return res
''')
r('cmp', '''    num = np.sum(np.abs(sc1._vec - sc2._vec))
    den = np.sum(np.abs(sc1._vec))
    return num / den
''', '''    diff = np.abs(sc1._vec - sc2._vec).sum()
    return diff / np.abs(sc1._vec).sum()
''')
r('cmp2', '''    num = np.sum(np.abs(sc1._vec - sc2._vec))
    den = np.sum(np.abs(sc1._vec))
    return num / den
''', '''    num = den = 0.0
    for a, b in zip(sc1._vec, sc2._vec):
        num += np.abs(a - b)
        den += np.abs(a)
    return num / den
''')
r('cont', '''    zdata = np.zeros([nrows - 2, ncols], dtype=np.complex128)
    ddata = np.concatenate([cdata, zdata])
    return double_sphere(ddata, sym)
''', '''    ddata = np.zeros((2 * nrows - 2, ncols), dtype=np.complex128)
    ddata[:nrows] = cdata
    return double_sphere(ddata, sym)
''')
r('ds_rows', '''    for n in xrange(0, nrows):
        for m in xrange(0, ncols):
            s = sym * cdata[np.mod(nrows - n, nrows),
                          np.mod(int(np.floor(ncols / 2)) + m, ncols)]
            t = cdata[n, m]

            if s == 0 or t == 0:
                ddata[n, m] = s + t
            else:
                ddata[n, m] = (s + t) / 2

    return ddata
''', '''    half = ncols // 2
    for n in xrange(nrows):
        mirror = -n % nrows
        for m in xrange(ncols):
            s = sym * cdata[mirror, (m + half) % ncols]
            t = cdata[n, m]
            both = s != 0 and t != 0
            ddata[n, m] = (s + t) / (2 if both else 1)

    return ddata
''')
r('ds_vec', '''    ddata = np.zeros([nrows, ncols], dtype=np.complex128)

    for n in xrange(0, nrows):
        for m in xrange(0, ncols):
            s = sym * cdata[np.mod(nrows - n, nrows),
                          np.mod(int(np.floor(ncols / 2)) + m, ncols)]
            t = cdata[n, m]

            if s == 0 or t == 0:
                ddata[n, m] = s + t
            else:
                ddata[n, m] = (s + t) / 2

    return ddata
''', '''    rows = np.mod(nrows - np.arange(nrows), nrows)
    cols = np.mod(np.arange(ncols) + ncols // 2, ncols)
    partner = sym * cdata[rows][:, cols]
    total = partner + cdata
    both = (partner != 0) & (cdata != 0)

    return np.where(both, total / 2, total).astype(np.complex128)
''')
r('ds_skip', '''    for n in xrange(0, nrows):
        for m in xrange(0, ncols):
            s = sym * cdata[np.mod(nrows - n, nrows),
                          np.mod(int(np.floor(ncols / 2)) + m, ncols)]
            t = cdata[n, m]

            if s == 0 or t == 0:
                ddata[n, m] = s + t
            else:
                ddata[n, m] = (s + t) / 2

    return ddata
''', '''    for n, m in np.ndindex(nrows, ncols):
        s = sym * cdata[(nrows - n) % nrows, (ncols // 2 + m) % ncols]
        t = cdata[n, m]

        if s == 0:
            ddata[n, m] = t
        elif t == 0:
            ddata[n, m] = s
        else:
            ddata[n, m] = 0.5 * (s + t)

    return ddata
''')
r('tp', '''    out = np.zeros([nrows, ncols], dtype=np.complex128)

    for nn in xrange(0, nrows):
        exp_vec = np.exp(1j * nu * theta[nn])
        for mm in xrange(0, ncols):          
            vl = np.sum(yvec * exp_vec)
            out[nn, mm] = 1j ** m * np.exp(1j * m * phi[mm]) * vl

    return out
''', '''    out = np.zeros([nrows, ncols], dtype=np.complex128)

    for nn in xrange(0, nrows):
        vl = np.sum(yvec * np.exp(1j * nu * theta[nn]))
        out[nn, :] = 1j ** m * np.exp(1j * m * phi) * vl

    return out
''')
r('tp2', '''    out = np.zeros([nrows, ncols], dtype=np.complex128)

    for nn in xrange(0, nrows):
        exp_vec = np.exp(1j * nu * theta[nn])
        for mm in xrange(0, ncols):          
            vl = np.sum(yvec * exp_vec)
            out[nn, mm] = 1j ** m * np.exp(1j * m * phi[mm]) * vl

    return out
''', '''    legendre = np.array([np.dot(yvec, np.exp(1j * nu * t)) for t in theta])
    azimuth = 1j ** m * np.exp(1j * m * phi)

    return np.outer(legendre, azimuth)
''')
r('tp3', '''    num = nuvec[1:] * (-1) ** m
    num = num[::-1]
    yvec = np.concatenate([num, nuvec])
''', '''    yvec = np.concatenate([(-1) ** m * nuvec[:0:-1], nuvec])
''')

r('ds_enum', '''    for n in xrange(0, nrows):
        for m in xrange(0, ncols):
            s = sym * cdata[np.mod(nrows - n, nrows),
                          np.mod(int(np.floor(ncols / 2)) + m, ncols)]
            t = cdata[n, m]

            if s == 0 or t == 0:
                ddata[n, m] = s + t
            else:
                ddata[n, m] = (s + t) / 2

    return ddata
''', '''    for (n, m), t in np.ndenumerate(cdata):
        s = sym * cdata[-n % nrows, (m + ncols // 2) % ncols]
        ddata[n, m] = s + t if s == 0 or t == 0 else (s + t) / 2

    return ddata
''')
r('ds_idx', '''    for n in xrange(0, nrows):
        for m in xrange(0, ncols):
            s = sym * cdata[np.mod(nrows - n, nrows),
                          np.mod(int(np.floor(ncols / 2)) + m, ncols)]
            t = cdata[n, m]

            if s == 0 or t == 0:
                ddata[n, m] = s + t
            else:
                ddata[n, m] = (s + t) / 2

    return ddata
''', '''    for idx in np.ndindex(cdata.shape):
        partner = ((nrows - idx[0]) % nrows, (ncols // 2 + idx[1]) % ncols)
        s, t = sym * cdata[partner], cdata[idx]
        weight = 1 if 0 in (s, t) else 2
        ddata[idx] = (s + t) / weight

    return ddata
''')
