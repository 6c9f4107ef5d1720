R=[]
def r(*a): R.append(a)
S='spherepy/spherepy.py'; F='spherepy/file.py'; B='spherepy/sbessel.py'; V='spherepy/verify.py'
r('size',S,"""        N = self.nmax + 1;
        NC = N + self.mmax * (2 * N - self.mmax - 1);
        assert NC == len(self._vec)
        return NC
""","""        return _mode_count(self._nmax, self._mmax)
""")
r('size2',S,"""class ScalarCoefs(object):
""","""def _mode_count(nmax, mmax):
    total = nmax + 1
    for m in range(1, mmax + 1):
        total += 2 * (nmax + 1 - m)
    return total


class ScalarCoefs(object):
""")
r('init',S,"""        N = nmax + 1;
        NC = N + mmax * (2 * N - mmax - 1);
        if NC != len(vec):
            raise ValueError(err_msg['scoef_size'])

        self._vec = vec
        self._nmax = nmax
        self._mmax = mmax
""","""        if len(vec) != _mode_count(nmax, mmax):
            raise ValueError(err_msg['scoef_size'])

        self._vec, self._nmax, self._mmax = vec, nmax, mmax
""")
r('copy',S,"""        vec = np.copy(self._vec)
        return ScalarCoefs(vec, self.nmax, self.mmax)
""","""        return ScalarCoefs(self._vec.copy(), self._nmax, self._mmax)
""")
r('window',S,"""        slce = slice(None, None, None)
        
        self.__setitem__((slce, 0), self.__getitem__((slce, 0)) * vec)  
        for m in xrange(1, self.mmax + 1):
            self.__setitem__((slce, -m), self.__getitem__((slce, -m)) * vec[m:])
            self.__setitem__((slce, m), self.__getitem__((slce, m)) * vec[m:])
""","""        for m in xrange(-self.mmax, self.mmax + 1):
            self[:, m] = self[:, m] * vec[np.abs(m):]
""")
r('aps',S,"""        list_of_modes = self._reshape_m_vecs() 
        Nmodes = len(list_of_modes)

        angular_power = np.zeros( Nmodes, dtype = np.double)

        for n in range(0, Nmodes):
            mode = np.array( list_of_modes[n], dtype = np.complex128 )
            angular_power[n] = np.sum( np.abs(mode) ** 2 )
            
        return angular_power 
""","""        return np.array([np.sum(np.abs(self[n, :]) ** 2)
                         for n in range(self.nmax + 1)], dtype=np.double)
""")
r('power',S,"""        return np.sum( np.abs(self._vec) ** 2)
""","""        v = self._vec
        return np.sum((v * np.conj(v)).real)
""")
r('2d',S,"""        lst = self._reshape_n_vecs()
        sc_array[0:self.nmax + 1, self.mmax] = lst[0]
        for m in xrange(1, self.mmax + 1):
            sc_array[m:self.nmax + 1, self.mmax - m] = lst[2 * m - 1]
            sc_array[m:self.nmax + 1, self.mmax + m] = lst[2 * m]
""","""        for m in xrange(-self.mmax, self.mmax + 1):
            sc_array[np.abs(m):, self.mmax + m] = self[:, m]
""")
r('nvecs',S,"""        lst = []
        sl = slice(None, None, None)
        lst.append(self.__getitem__((sl, 0)))
        for m in xrange(1, self.mmax + 1):
            lst.append(self.__getitem__((sl, -m)))
            lst.append(self.__getitem__((sl, m)))
        return lst
""","""        lst = [self[:, 0]]
        for m in xrange(1, self.mmax + 1):
            lst += [self[:, -m], self[:, m]]
        return lst
""")
r('mvecs',S,"""        lst = []
        for n in xrange(0, self.nmax + 1):
            mlst = []
            if n <= self.mmax:
                nn = n
            else:
                nn = self.mmax            
            for m in xrange(-nn, nn + 1):
                mlst.append(self.__getitem__((n, m)))
            lst.append(mlst)
        return lst
""","""        lst = []
        for n in xrange(0, self.nmax + 1):
            nn = min(n, self.mmax)
            lst.append([self[n, m] for m in xrange(-nn, nn + 1)])
        return lst
""")
r('setitem',S,"""                if n <= self.mmax:
                    nn = n
                else:
                    nn = self.mmax            

                if (len(val) != 2 * nn + 1):
                    raise AttributeError(err_msg['dim_no_mtch'])

                for k, m in enumerate(xrange(-nn, nn + 1)):
                    self.__setitem__((n, m), val[k])
""","""                nn = min(n, self.mmax)

                if (len(val) != 2 * nn + 1):
                    raise AttributeError(err_msg['dim_no_mtch'])

                m = -nn
                while m <= nn:
                    self[n, m] = val[m + nn]
                    m += 1
""")
r('getn',S,"""                mlst = []
                if n <= self.mmax:
                    nn = n
                else:
                    nn = self.mmax            
                for m in xrange(-nn, nn + 1):
                    mlst.append(self.__getitem__((n, m)))

                return np.array(mlst, dtype=np.complex128)
""","""                nn = n if n <= self.mmax else self.mmax
                row = np.zeros(2 * nn + 1, dtype=np.complex128)
                for k in xrange(2 * nn + 1):
                    row[k] = self._vec[self._position(n, k - nn)]

                return row
""")
r('getn2',S,"""    def __setitem__(self, arg, val):
        if len(arg) != 2:
            raise AttributeError(err_msg['tuple_2_el'])

        if isinstance(arg[0], slice) and isinstance(arg[1], int):
""","""    def _position(self, n, m):
        if (n < 0) or (n > self._nmax):
            raise AttributeError(err_msg['n_out_bound'])

        if (np.abs(m) > n) or (np.abs(m) > self._mmax):
            raise AttributeError(err_msg['m_out_bound'])

        return pysphi.mindx(m, self.nmax, self.mmax) + n - np.abs(m)

    def __setitem__(self, arg, val):
        if len(arg) != 2:
            raise AttributeError(err_msg['tuple_2_el'])

        if isinstance(arg[0], slice) and isinstance(arg[1], int):
""")
r('set1',S,"""            if (n < 0) or (n > self._nmax):
                raise AttributeError(err_msg['n_out_bound'])

            if (np.abs(m) > n) or (np.abs(m) > self._mmax):
                raise AttributeError(err_msg['m_out_bound'])

            idx = pysphi.mindx(m, self.nmax, self.mmax) + n - np.abs(m)

            self._vec[idx] = val
""","""            self._vec[self._position(n, m)] = val
""")
r('get1',S,"""            if (n < 0) or (n > self._nmax):
                raise AttributeError(err_msg['n_out_bound'])

            if (np.abs(m) > n) or (np.abs(m) > self._mmax):
                raise AttributeError(err_msg['m_out_bound'])

            idx = pysphi.mindx(m, self.nmax, self.mmax) + n - np.abs(m)

            return self._vec[idx]
""","""            return self._vec[self._position(n, m)]
""")
r('trunc',S,"""                vec[0:new_nmax + 1] = self._vec[0:new_nmax + 1]
                for m in xrange(1, new_mmax + 1):
                    idx = pysphi.mindx(-m, self.nmax, self.mmax)
                    nidx = pysphi.mindx(-m, new_nmax, new_mmax)
                    ln = new_nmax - np.abs(m) + 1
                    vec[nidx:nidx + ln] = self._vec[idx:idx + ln]

                    idx = pysphi.mindx(m, self.nmax, self.mmax)
                    nidx = pysphi.mindx(m, new_nmax, new_mmax)
                    ln = new_nmax - np.abs(m) + 1
                    vec[nidx:nidx + ln] = self._vec[idx:idx + ln]

                return ScalarCoefs(vec, new_nmax, new_mmax)
""","""                result = ScalarCoefs(vec, new_nmax, new_mmax)
                for m in xrange(-new_mmax, new_mmax + 1):
                    result[:, m] = self[:, m][0:new_nmax - np.abs(m) + 1]

                return result
""")
r('opleft',S,"""            if isinstance(scoef, ScalarCoefs):
                if (self.nmax, self.mmax) == (scoef.nmax, scoef.mmax):
                    return ScalarCoefs(func(self, self._vec, scoef._vec),
                                        self.nmax,
                                        self.mmax)
                else:
                    raise ValueError(err_msg['SC_sz_msmtch'] % \\
                                    (self.nmax, self.mmax,
                                     scoef.nmax, scoef.mmax))
        
            elif isinstance(scoef, numbers.Number):
                return ScalarCoefs(func(self, self._vec, scoef), self.nmax,
                                   self.mmax)
            else:
                raise TypeError(err_msg['no_combi_SC'])
""","""            if isinstance(scoef, ScalarCoefs):
                if self.nmax != scoef.nmax or self.mmax != scoef.mmax:
                    raise ValueError(err_msg['SC_sz_msmtch'] % \\
                                    (self.nmax, self.mmax,
                                     scoef.nmax, scoef.mmax))
                other = scoef._vec
            elif isinstance(scoef, numbers.Number):
                other = scoef
            else:
                raise TypeError(err_msg['no_combi_SC'])

            vec = func(self, self._vec, other)
            return ScalarCoefs(vec, self.nmax, self.mmax)
""")
r('vop',S,"""                if (self.nmax, self.mmax) == (vcoef.nmax, vcoef.mmax):
                    return VectorCoefs(func(self, self.scoef1._vec,
                                                  vcoef.scoef1._vec),
                                       func(self, self.scoef2._vec,
                                                  vcoef.scoef2._vec),
                                        self.nmax,
                                        self.mmax)
""","""                if (self.nmax, self.mmax) == (vcoef.nmax, vcoef.mmax):
                    pairs = zip((self.scoef1, self.scoef2),
                                (vcoef.scoef1, vcoef.scoef2))
                    vecs = [func(self, a._vec, b._vec) for a, b in pairs]
                    return VectorCoefs(*vecs, nmax=self.nmax, mmax=self.mmax)
""")
r('single',S,"""        sv = 0.0
        for n in xrange(0, nrows):
            for m in xrange(0, ncols):
                s = self._dsphere[np.mod(nrows - n, nrows),
                              np.mod(int(np.floor(ncols / 2)) + m, ncols)]
                t = self._dsphere[n, m]

                if s != 0:
                    sabs = np.abs((s - t) / s)
                    if sabs >= sv:
                        sv = sabs
                elif t != 0:
                    sabs = 1.0
                    if sabs >= sv:
                        sv = sabs

        return sv
""","""        half = ncols // 2
        sv = 0.0
        for n in xrange(0, nrows):
            for m in xrange(0, ncols):
                s = self._dsphere[-n % nrows, (half + m) % ncols]
                t = self._dsphere[n, m]

                if s != 0:
                    sabs = np.abs(s - t) / np.abs(s)
                elif t != 0:
                    sabs = 1.0
                else:
                    continue
                sv = max(sv, sabs)

        return sv
""")
r('dsphere',S,"""    for n in xrange(0, nrows):
        for m in xrange(0, ncols):
            s = sym * cdata[np.mod(nrows - n, nrows),
                          np.mod(int(np.floor(ncols / 2)) + m, ncols)]
            t = cdata[n, m]

            if s == 0 or t == 0:
                ddata[n, m] = s + t
            else:
                ddata[n, m] = (s + t) / 2

    return ddata
""","""    half = ncols // 2

    for n in xrange(0, nrows):
        opposite = 0 if n == 0 else nrows - n
        for m in xrange(0, ncols):
            s = sym * cdata[opposite, (m + half) % ncols]
            t = cdata[n, m]
            total = s + t
            ddata[n, m] = total if s == 0 or t == 0 else 0.5 * total

    return ddata
""")
r('cont',S,"""    zdata = np.zeros([nrows - 2, ncols], dtype=np.complex128)
    ddata = np.concatenate([cdata, zdata])
    return double_sphere(ddata, sym)
""","""    ddata = np.zeros([2 * nrows - 2, ncols], dtype=np.complex128)
    ddata[:nrows, :] = cdata
    return double_sphere(ddata, sym)
""")
r('spht',S,"""    fdata = np.fft.fft2(ssphere._dsphere) / (dnrows * ncols)
    ops.fix_even_row_data_fc(fdata)
    
    fdata_extended = np.zeros([dnrows + 2, ncols], dtype=np.complex128)

    ops.pad_rows_fdata(fdata, fdata_extended)

    ops.sin_fc(fdata_extended)
    
    N = nmax + 1;
    NC = N + mmax * (2 * N - mmax - 1);
    sc = np.zeros(NC, dtype=np.complex128)
    # check if we are using c extended versions of the code or not
    if use_cext: 
        csphi.fc_to_sc(fdata_extended, sc, nmax, mmax)
    else:   
        sc = pysphi.fc_to_sc(fdata_extended, nmax, mmax)
                                
    return ScalarCoefs(sc, nmax, mmax)
""","""    fdata_extended = _extended_fdata(ssphere._dsphere)
    ops.sin_fc(fdata_extended)

    return ScalarCoefs(_forward(fdata_extended, nmax, mmax), nmax, mmax)

def _extended_fdata(dsphere):
    dnrows, ncols = dsphere.shape
    fdata = np.fft.fft2(dsphere) / (dnrows * ncols)
    ops.fix_even_row_data_fc(fdata)

    fdata_extended = np.zeros([dnrows + 2, ncols], dtype=np.complex128)
    ops.pad_rows_fdata(fdata, fdata_extended)
    return fdata_extended

def _forward(fdata, nmax, mmax):
    if not use_cext:
        return pysphi.fc_to_sc(fdata, nmax, mmax)
    sc = np.zeros(_mode_count(nmax, mmax), dtype=np.complex128)
    csphi.fc_to_sc(fdata, sc, nmax, mmax)
    return sc
""")
r('vspht',S,"""    ft = np.fft.fft2(vsphere._tdsphere) / (dnrows * ncols)
    ops.fix_even_row_data_fc(ft)
    
    ft_extended = np.zeros([dnrows + 2, ncols], dtype=np.complex128)
    ops.pad_rows_fdata(ft, ft_extended)
    
    pt = np.fft.fft2(vsphere._pdsphere) / (dnrows * ncols)
    ops.fix_even_row_data_fc(pt)
    
    pt_extended = np.zeros([dnrows + 2, ncols], dtype=np.complex128)
    ops.pad_rows_fdata(pt, pt_extended)
    
    ftmp = np.copy(ft_extended)
    ptmp = np.copy(pt_extended)
    Lf1 = ops.sinLdot_fc(ft_extended, pt_extended)
    Lf2 = ops.sinLdot_fc(-1j * ptmp, 1j * ftmp)
    
    # check if we are using c extended versions of the code or not
    if use_cext: 
        N = nmax + 1;
        NC = N + mmax * (2 * N - mmax - 1);
        sc1 = np.zeros(NC, dtype=np.complex128)
        sc2 = np.zeros(NC, dtype=np.complex128)
        csphi.fc_to_sc(Lf1, sc1, nmax, mmax)
        csphi.fc_to_sc(Lf2, sc2, nmax, mmax)
    else:   
        sc1 = pysphi.fc_to_sc(Lf1, nmax, mmax)
        sc2 = pysphi.fc_to_sc(Lf2, nmax, mmax)

    vcoefs = VectorCoefs(sc1, sc2, nmax, mmax)

    nvec = np.zeros(nmax + 1, dtype=np.complex128)

    for n in xrange(1, nmax + 1):
        nvec[n] = 1.0 / np.sqrt(n * (n + 1.0))

    vcoefs.scoef1.window(nvec)
    vcoefs.scoef2.window(nvec)
        
    return vcoefs
""","""    ft_extended = _extended_fdata(vsphere._tdsphere)
    pt_extended = _extended_fdata(vsphere._pdsphere)

    swapped = (-1j * pt_extended, 1j * ft_extended)
    Lf1 = ops.sinLdot_fc(ft_extended, pt_extended)
    Lf2 = ops.sinLdot_fc(*swapped)

    sc1 = _forward(Lf1, nmax, mmax)
    sc2 = _forward(Lf2, nmax, mmax)

    vcoefs = VectorCoefs(sc1, sc2, nmax, mmax)
    for component in (vcoefs.scoef1, vcoefs.scoef2):
        component.window(_vector_norms(nmax))

    return vcoefs

def _vector_norms(nmax):
    nvec = np.zeros(nmax + 1, dtype=np.complex128)
    n = np.arange(1, nmax + 1)
    nvec[1:] = 1.0 / np.sqrt(n * (n + 1.0))
    return nvec
""")
r('ispht',S,"""    if use_cext: 
        fdata = np.zeros([dnrows, ncols], dtype=np.complex128)
        csphi.sc_to_fc(fdata, scoefs._vec.astype(np.complex128),
                       scoefs._nmax, scoefs._mmax)
    else:   
        fdata = pysphi.sc_to_fc(scoefs._vec,
                            scoefs._nmax,
                            scoefs._mmax,
                            dnrows, ncols)
    
    ds = np.fft.ifft2(fdata) * dnrows * ncols

    return ScalarPatternUniform(ds, doublesphere=True)
""","""    ds = _synthesize(_inverse(scoefs, dnrows, ncols))

    return ScalarPatternUniform(ds, doublesphere=True)

def _inverse(scoefs, dnrows, ncols):
    if not use_cext:
        return pysphi.sc_to_fc(scoefs._vec, scoefs.nmax, scoefs.mmax, dnrows,
                               ncols)
    fdata = np.zeros((dnrows, ncols), dtype=np.complex128)
    csphi.sc_to_fc(fdata, scoefs._vec.astype(np.complex128), scoefs.nmax,
                   scoefs.mmax)
    return fdata

def _synthesize(fdata):
    return np.fft.ifft2(fdata) * fdata.size
""")
r('vispht',S,"""    nvec = np.zeros(vcoefs.nmax + 1, dtype=np.complex128)
    for n in xrange(1, vcoefs.nmax + 1):
        nvec[n] = 1.0 / np.sqrt(n * (n + 1.0))

    sc1 = vcoefs.scoef1.copy()
    sc2 = vcoefs.scoef2.copy()

    sc1.window(nvec)
    sc2.window(nvec)

    if use_cext: 
        fdata1 = np.zeros([dnrows, ncols], dtype=np.complex128)
        fdata2 = np.zeros([dnrows, ncols], dtype=np.complex128)
        csphi.sc_to_fc(fdata1, sc1._vec,
                       sc1.nmax, sc1.mmax)
        csphi.sc_to_fc(fdata2, sc2._vec,
                       sc1.nmax, sc1.mmax)
    else:   
        fdata1 = pysphi.sc_to_fc(sc1._vec,
                            sc1.nmax,
                            sc1.mmax,
                            dnrows, ncols)
        fdata2 = pysphi.sc_to_fc(sc2._vec,
                            sc2.nmax,
                            sc2.mmax,
                            dnrows, ncols)

    f1 = ops.L_fc(fdata1)
    f2 = ops.L_fc(fdata2)

    ftheta = f1[0] - 1j * f2[1]
    fphi = f1[1] + 1j * f2[0]
    
    dtheta = np.fft.ifft2(ftheta) * dnrows * ncols
    dphi = np.fft.ifft2(fphi) * dnrows * ncols

    return TransversePatternUniform(dtheta, dphi, doublesphere=True)
""","""    fields = []
    for sc in (vcoefs.scoef1, vcoefs.scoef2):
        weighted = sc.copy()
        weighted.window(_vector_norms(vcoefs.nmax))
        fields.append(ops.L_fc(_inverse(weighted, dnrows, ncols)))

    (t1, p1), (t2, p2) = fields

    return TransversePatternUniform(_synthesize(t1 - 1j * p2),
                                    _synthesize(p1 + 1j * t2),
                                    doublesphere=True)
""")
r('norms',S,"""        l1 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
        l2 = np.sqrt(np.sum(np.abs(coef.scoef2._vec) ** 2))
        return np.sqrt(l1 ** 2 + l2 ** 2)
""","""        return np.sqrt(L2_coef(coef.scoef1) ** 2 + L2_coef(coef.scoef2) ** 2)
""")
r('norms2',S,"""        return np.sqrt(np.sum(np.abs(coef._vec) ** 2))
""","""        return np.sqrt(coef.power())
""")
r('linf',S,"""        l1 = np.max(np.abs(coef.scoef1._vec))
        l2 = np.max(np.abs(coef.scoef2._vec))
        return np.sqrt(l1 ** 2 + l2 ** 2)
""","""        peaks = [np.abs(s._vec).max() for s in (coef.scoef1, coef.scoef2)]
        return np.sqrt(peaks[0] ** 2 + peaks[1] ** 2)
""")
r('tp',S,"""    for nn in xrange(0, nrows):
        exp_vec = np.exp(1j * nu * theta[nn])
        for mm in xrange(0, ncols):          
            vl = np.sum(yvec * exp_vec)
            out[nn, mm] = 1j ** m * np.exp(1j * m * phi[mm]) * vl

    return out
""","""    for nn in xrange(0, nrows):
        vl = np.sum(yvec * np.exp(1j * nu * theta[nn]))
        out[nn, :] = (1j ** m) * vl * np.exp(1j * m * phi)

    return out
""")
r('loadp',F,"""    with open(filename) as f: 
        lines = f.readlines()

        lst = lines[0].split(',')

        patt = np.zeros([int(lst[0]), int(lst[1])],
                        dtype=np.complex128)

        lines.pop(0)

        for line in lines:
            lst = line.split(',')
            n = int(lst[0])
            m = int(lst[1])
            re = float(lst[2])
            im = float(lst[3])
            patt[n, m] = re + 1j * im

    return sp.ScalarPatternUniform(patt, doublesphere=False)
""","""    return sp.ScalarPatternUniform(_read_grid(filename), doublesphere=False)

def _read_grid(filename):
    with open(filename) as f:
        header, rows = f.readline(), f.readlines()

    nrows, ncols = [int(word) for word in header.split(',')]
    patt = np.zeros((nrows, ncols), dtype=np.complex128)
    for line in rows:
        n, m, re, im = line.split(',')
        patt[int(n), int(m)] = float(re) + 1j * float(im)
    return patt
""")
r('savec',F,"""    L = (nmax + 1) + mmax * (2 * nmax - mmax + 1);

    with open(filename, 'w') as f: 
        f.write("{0},{1}\\n".format(nmax, mmax))
        for n in xrange(0, L):
            f.write(frmstr.format(scoef._vec[n].real,
                                  scoef._vec[n].imag))
""","""    with open(filename, 'w') as f:
        f.write("{0},{1}\\n".format(nmax, mmax))
        for value in scoef._vec:
            f.write(frmstr.format(value.real, value.imag))
""")
r('savep',F,"""    with open(filename, 'w') as f: 
        f.write("{0},{1}\\n".format(nrows, ncols))
        for nr in xrange(0, nrows):
            for nc in xrange(0, ncols):
                f.write(frmstr.format(nr, nc, ar[nr, nc].real,
                                            ar[nr, nc].imag))
""","""    f = open(filename, 'w')
    try:
        f.write("{0},{1}\\n".format(nrows, ncols))
        for nr in xrange(0, nrows):
            row = ar[nr, :]
            for nc in xrange(0, ncols):
                v = row[nc]
                f.write(frmstr.format(nr, nc, v.real, v.imag))
    finally:
        f.close()
""")
r('loadc',F,"""        for n, line in enumerate(lines):
            lst = line.split(',')
            re = float(lst[0])
            im = float(lst[1])
            vec[n] = re + 1j * im

    return sp.ScalarCoefs(vec, nmax, mmax)
""","""        n = 0
        while n < len(lines):
            re, im = lines[n].split(',')
            vec[n] = complex(float(re), float(im))
            n += 1

    return sp.ScalarCoefs(vec, nmax, mmax)
""")
r('y',B,"""    for n in xrange(2, N):
        out[n] = ((2.0 * n - 1.0) / x) * out[n - 1] - out[n - 2]

    return out
""","""    n = 1
    while n + 1 < N:
        out[n + 1] = (2.0 * n + 1.0) * out[n] / x - out[n - 1]
        n += 1

    return out
""")
r('j',B,"""    for n in xrange(nmax - 1, 0, -1):
        out[n] = 1.0 / _nonzero((2.0 * n + 1.0) / x - out[n + 1])

    if(np.abs(out[0]) >= np.abs(j1)):
        out[1] *= out[0]
    else:
        out[1] = j1

    for n in xrange(1, nmax):
        out[n + 1] *= out[n]
""","""    n = nmax - 1
    while n > 0:
        out[n] = 1.0 / _nonzero((2.0 * n + 1.0) / x - out[n + 1])
        n -= 1

    if(np.abs(out[0]) >= np.abs(j1)):
        out[1] = out[0] * out[1]
    else:
        out[1] = j1

    for n in xrange(2, N):
        out[n] = out[n - 1] * out[n]
""")
r('h',B,"""    jn = sbesselj(x, N)
    yn = sbessely(x, N)

    return jn + 1j * yn
""","""    return sbesselj(x, N) + 1j * sbessely(x, N)
""")
r('arr',B,"""    first_time = True  
    for x in xvec:
        a = sbesselj(x, N)
        if first_time:
            out = np.array([a])
            first_time = False
        else:
            out = np.concatenate([out, [a]], axis=0)
            
    return out.T 
""","""    return np.array([sbesselj(x, N) for x in xvec]).T
""")
