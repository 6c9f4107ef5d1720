# The same computations in other numpy idioms.
R=[]
def r(*a): R.append(a)
S='spherepy/spherepy.py'; O='spherepy/ops.py'; PY='spherepy/pysphi.py'; B='spherepy/sbessel.py'; F='spherepy/file.py'
r('roll',O,"""    work1 = np.zeros([nrows, ncols], dtype=np.complex128)
    work2 = np.zeros([nrows, ncols], dtype=np.complex128)

    work1[0, :] = fdata[-1, :]
    work1[1:, :] = fdata[0:-1, :]

    work2[0:-1] = fdata[1:, :]
    work2[-1, :] = fdata[0, :]

    fdata[:, :] = 1.0 / (2 * 1j) * (work1 - work2)
""","""    fdata[...] = (np.roll(fdata, 1, axis=0) - np.roll(fdata, -1, axis=0)) / 2j
""")
r('dtheta2',O,"""    a = list(range(0, B))
    ap = list(range(-B, 0))
    a.extend(ap)
    
    dtheta = np.zeros([nrows, ncols], np.complex128)
    
    for k in xrange(0, ncols):
        dtheta[:, k] = a
        
    fdata[:, :] = 1j * dtheta * fdata
""","""    a = np.hstack((np.arange(0, B), np.arange(-B, 0)))
    fdata *= 1j * a[:, np.newaxis]
""")
r('dphi2',O,"""    a = list(range(0, int(B)))
    ap = list(range(-int(B), 0))
    a.extend(ap)
    
    dphi = np.zeros([nrows, ncols], np.complex128)
    
    for k in xrange(0, nrows):
        dphi[k, :] = a
        
    fdata[:, :] = 1j * dphi * fdata
""","""    a = np.arange(ncols)
    a = np.where(a < B, a, a - ncols)
    np.multiply(fdata, 1j * a, out=fdata)
""")
r('pad2',O,"""    fdata_extended[:, :] = 0
    fdata_extended[0:M, :] = fdata[0:M, :]
    fdata_extended[-1:-M:-1, :] = fdata[-1:-M:-1, :]
""","""    fdata_extended.fill(0)
    fdata_extended[:M] = fdata[:M]
    fdata_extended[Le - M + 1:] = fdata[L - M + 1:]
""")
r('divsin2',O,"""    for k in xrange(L2, -L2, -1):
        g[k - 1, :] = 2 * 1j * fdata[k, :] + g[k + 1, :]
""","""    for step in xrange(2 * L2):
        k = L2 - step
        np.add(2j * fdata[k, :], g[k + 1, :], out=g[k - 1, :])
""")
r('sinL',O,"""    dphi_fc(tfdata)
    
    sin_fc(pfdata)
    dtheta_fc(pfdata)
    
    return 1j * (tfdata - pfdata)
""","""    sin_fc(pfdata)
    dtheta_fc(pfdata)
    dphi_fc(tfdata)

    return np.subtract(tfdata, pfdata) * 1j
""")
r('dssphere',S,"""    for n in xrange(0, nrows):
        for m in xrange(0, ncols):
            s = sym * cdata[np.mod(nrows - n, nrows),
                          np.mod(int(np.floor(ncols / 2)) + m, ncols)]
            t = cdata[n, m]

            if s == 0 or t == 0:
                ddata[n, m] = s + t
            else:
                ddata[n, m] = (s + t) / 2

    return ddata
""","""    for n in xrange(0, nrows):
        s = sym * np.roll(cdata[-n % nrows, :], -(ncols // 2))
        t = cdata[n, :]
        ddata[n, :] = np.where((s == 0) | (t == 0), s + t, (s + t) / 2)

    return ddata
""")
r('cont2',S,"""    zdata = np.zeros([nrows - 2, ncols], dtype=np.complex128)
    ddata = np.concatenate([cdata, zdata])
    return double_sphere(ddata, sym)
""","""    zdata = np.zeros([nrows - 2, ncols], dtype=np.complex128)
    return double_sphere(np.vstack((cdata, zdata)), sym)
""")
r('spht2',S,"""    fdata = np.fft.fft2(ssphere._dsphere) / (dnrows * ncols)
    ops.fix_even_row_data_fc(fdata)
""","""    fdata = np.fft.fft(np.fft.fft(ssphere._dsphere, axis=0), axis=1)
    fdata /= dnrows * ncols
    ops.fix_even_row_data_fc(fdata)
""")
r('l2p',S,"""    return np.sqrt(np.sum(np.abs(coef""","""    return np.sqrt(np.sum(np.abs(coef""")
r('y2',B,"""    for n in xrange(2, N):
""","""    for n in range(2, N, 1):
""")
r('win2',S,"""        slce = slice(None, None, None)
        
        self.__setitem__((slce, 0), self.__getitem__((slce, 0)) * vec)  
        for m in xrange(1, self.mmax + 1):
            self.__setitem__((slce, -m), self.__getitem__((slce, -m)) * vec[m:])
            self.__setitem__((slce, m), self.__getitem__((slce, m)) * vec[m:])
""","""        self[:, 0] = np.multiply(self[:, 0], vec)
        for m in xrange(1, self.mmax + 1):
            for signed in (m, -m):
                block = self[:, signed]
                block *= vec[m:]
""")
r('getn3',S,"""                mlst = []
                if n <= self.mmax:
                    nn = n
                else:
                    nn = self.mmax            
                for m in xrange(-nn, nn + 1):
                    mlst.append(self.__getitem__((n, m)))

                return np.array(mlst, dtype=np.complex128)
""","""                nn = min(n, self.mmax)
                out = np.empty(2 * nn + 1, dtype=np.complex128)
                for k, m in enumerate(xrange(-nn, nn + 1)):
                    out[k] = self[n, m]
                return out
""")
r('setn3',S,"""                if (len(val) != 2 * nn + 1):
                    raise AttributeError(err_msg['dim_no_mtch'])

                for k, m in enumerate(xrange(-nn, nn + 1)):
                    self.__setitem__((n, m), val[k])
""","""                if len(val) != nn + nn + 1:
                    raise AttributeError(err_msg['dim_no_mtch'])

                for m, item in zip(xrange(-nn, nn + 1), val):
                    self[n, m] = item
""")
r('aps2',S,"""        list_of_modes = self._reshape_m_vecs() 
        Nmodes = len(list_of_modes)

        angular_power = np.zeros( Nmodes, dtype = np.double)

        for n in range(0, Nmodes):
            mode = np.array( list_of_modes[n], dtype = np.complex128 )
            angular_power[n] = np.sum( np.abs(mode) ** 2 )
            
        return angular_power 
""","""        power = []
        for mode in self._reshape_m_vecs():
            mode = np.asarray(mode)
            power.append((mode.real ** 2 + mode.imag ** 2).sum())
        return np.array(power)
""")
r('power2',S,"""        return np.sum( np.abs(self._vec) ** 2)
""","""        return np.linalg.norm(self._vec) ** 2
""")
r('spdata',PY,"""    for nu in xrange(-MM, MM + Nmax + 1):
""","""    for nu in np.arange(-MM, MM + Nmax + 1):
""")
