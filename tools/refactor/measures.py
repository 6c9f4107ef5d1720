# Symmetry measures, verification routines, Bessel arrays and self-tests, file readers.
R=[]
def r(*a): R.append(a)
S='spherepy/spherepy.py'; B='spherepy/sbessel.py'; F='spherepy/file.py'; V='spherepy/verify.py'
SV="""        nrows = self._dsphere.shape[0]
        ncols = self._dsphere.shape[1]

        sv = 0.0
        for n in xrange(0, nrows):
            for m in xrange(0, ncols):
                s = self._dsphere[np.mod(nrows - n, nrows),
                              np.mod(int(np.floor(ncols / 2)) + m, ncols)]
                t = self._dsphere[n, m]

                if s != 0:
                    sabs = np.abs((s - t) / s)
                    if sabs >= sv:
                        sv = sabs
                elif t != 0:
                    sabs = 1.0
                    if sabs >= sv:
                        sv = sabs

        return sv
"""
r('sv_max',S,SV,"""        nrows, ncols = self._dsphere.shape
        worst = 0.0
        for n in xrange(nrows):
            for m in xrange(ncols):
                t = self._dsphere[n, m]
                s = self._dsphere[-n % nrows, (ncols // 2 + m) % ncols]
                if s != 0:
                    worst = max(worst, np.abs((s - t) / s))
                elif t != 0:
                    worst = max(worst, 1.0)
        return worst
""")
r('sv_helper',S,SV,"""        return self._deviation(self._dsphere, 1)

    @staticmethod
    def _deviation(data, sign):
        nrows, ncols = data.shape
        half = ncols // 2
        sv = 0.0
        for n in xrange(0, nrows):
            for m in xrange(0, ncols):
                s = sign * data[(nrows - n) % nrows, (half + m) % ncols]
                t = data[n, m]
                if s == 0 and t == 0:
                    continue
                if s == 0:
                    err = 1.0
                else:
                    err = np.abs((s - t) / s)
                if err > sv:
                    sv = err
        return sv
""")
r('sv_list',S,SV,"""        nrows, ncols = self._dsphere.shape
        errs = []
        for n in xrange(0, nrows):
            for m in xrange(0, ncols):
                s = self._dsphere[(nrows - n) % nrows, (ncols // 2 + m) % ncols]
                t = self._dsphere[n, m]
                if s != 0:
                    errs.append(np.abs((s - t) / s))
                else:
                    errs.append(1.0 if t != 0 else 0.0)
        return max(errs)
""")
r('sv_where',S,SV,"""        data = self._dsphere
        nrows, ncols = data.shape
        rows = -np.arange(nrows) % nrows
        cols = (np.arange(ncols) + ncols // 2) % ncols
        s = data[np.ix_(rows, cols)]
        zero = s == 0
        err = np.abs((s - data) / np.where(zero, 1.0, s))
        return np.max(np.where(zero, np.where(data != 0, 1.0, 0.0), err))
""")
r('sym_ret',S,"""        if self.single_val < 1e-14:
            return True 
        else:
            return False
""","""        return bool(self.single_val < 1e-14)
""")
r('sym_ret2',S,"""        if (self.single_val[0] < 1e-13) and (self.single_val[1] < 1e-13):
            return True 
        else:
            return False
""","""        theta, phi = self.single_val
        return bool(max(theta, phi) < 1e-13)
""")
r('sym_all',S,"""        if (self.single_val[0] < 1e-13) and (self.single_val[1] < 1e-13):
            return True 
        else:
            return False
""","""        return all(val < 1e-13 for val in self.single_val)
""")
SVT="""        sv = 0.0
        for n in xrange(0, nrows):
            for m in xrange(0, ncols):
                s = -dat[np.mod(nrows - n, nrows),
                              np.mod(int(np.floor(ncols / 2)) + m, ncols)]
                t = dat[n, m]

                if s != 0:
                    sabs = np.abs((s - t) / s)
                    if sabs >= sv:
                        sv = sabs
"""
r('svt_row',S,SVT,"""        sv = 0.0
        for n in xrange(0, nrows):
            mirror = -dat[np.mod(nrows - n, nrows)]
            for m in xrange(0, ncols):
                s = mirror[np.mod(ncols // 2 + m, ncols)]
                t = dat[n, m]

                if s != 0:
                    sabs = np.abs(s - t) / np.abs(s)
                    if sabs >= sv:
                        sv = sabs
""")
r('ver_helper',V,"""    diff = fsc - sc
    
    return (sp.L2_coef(diff) , sp.LInf_coef(diff),
            sp.L2_coef(diff) / sp.L2_coef(fsc),
            sp.LInf_coef(diff) / sp.LInf_coef(fsc))
""","""    return _report(fsc, sc, sp.L2_coef, sp.LInf_coef)

def _report(ref, val, l2, linf):
    diff = ref - val
    a, b = l2(diff), linf(diff)
    return a, b, a / l2(ref), b / linf(ref)
""")
r('ver_fd',V,"""    diff = np.abs(fdata - ffdata)
    return np.max(diff)
""","""    worst = 0.0
    for i in xrange(fdata.shape[0]):
        for j in xrange(fdata.shape[1]):
            worst = max(worst, np.abs(fdata[i, j] - ffdata[i, j]))
    return worst
""")
r('ver_fd2',V,"""    ffdata = np.zeros([fdata.shape[0], fdata.shape[1]], dtype=np.complex128)
    sp""","""    ffdata = np.zeros_like(fdata)
    sp""")
r('bes_arr',B,"""    first_time = True  
    for x in xvec:
        a = sbesselj(x, N)
        if first_time:
            out = np.array([a])
            first_time = False
        else:
            out = np.concatenate([out, [a]], axis=0)
            
    return out.T 
""","""    return np.array([sbesselj(x, N) for x in xvec]).T
""")
r('bes_arr2',B,"""    first_time = True  
    for x in xvec:
        a = sbesselj(x, N)
        if first_time:
            out = np.array([a])
            first_time = False
        else:
            out = np.concatenate([out, [a]], axis=0)
            
    return out.T 
""","""    out = np.zeros((N, len(xvec)))
    for i, x in enumerate(xvec):
        out[:, i] = sbesselj(x, N)
    return out
""")
r('bes_arr3',B,"""    first_time = True  
    for x in xvec:
        a = sbessely(x, N)
        if first_time:
            out = np.array([a])
            first_time = False
        else:
            out = np.concatenate([out, [a]], axis=0)
            
    return out.T 
""","""    out = None
    for x in xvec:
        row = sbessely(x, N)
        if out is None:
            out = np.array([row])
        else:
            out = np.vstack((out, row))

    return out.T
""")
r('bes_arr4',B,"""    first_time = True  
    for x in xvec:
        a = sbessely(x, N)
        if first_time:
            out = np.array([a])
            first_time = False
        else:
            out = np.concatenate([out, [a]], axis=0)
            
    return out.T 
""","""    columns = []
    for x in xvec:
        columns.append(sbessely(x, N))

    return np.column_stack(columns)
""")
r('bes_sum',B,"""    vvv = 2.0 * np.array(range(0, N), dtype=np.float64) + 1.0
    sm = np.sum(np.sort(vvv * (b ** 2)))
""","""    sm = 0.0
    for n in range(N):
        sm += (2 * n + 1) * b[n] ** 2
""")
r('bes_sum2',B,"""    vvv = 2.0 * np.array(range(0, N), dtype=np.float64) + 1.0
    sm = np.sum(np.sort(vvv * (b ** 2)))
""","""    sm = sum((2 * n + 1) * v * v for n, v in enumerate(b))
""")
r('bes_cross',B,"""    w = y1[:-1] * j1[1:] - j1[:-1] * y1[1:]
    wp = 1.0 / ((z * np.ones(N, dtype=np.float64)) ** 2)
    return np.max(np.abs(w - wp) / wp)
""","""    wp = 1.0 / z ** 2
    worst = 0.0
    for n in range(N):
        w = y1[n] * j1[n + 1] - j1[n] * y1[n + 1]
        worst = max(worst, np.abs(w - wp) / wp)
    return worst
""")
VC="""        n = 0
        in_vec2 = False
        for line in lines:

            if line.strip() == 'break':
                n = 0
                in_vec2 = True;
            else:
                lst = line.split(',')
                re = float(lst[0])
                im = float(lst[1])

                if in_vec2:
                    vec2[n] = re + 1j * im
                else:
                    vec1[n] = re + 1j * im

                n += 1
"""
r('vc_cur',F,VC,"""        n = 0
        vec = vec1
        for line in lines:
            if line.strip() == 'break':
                n = 0
                vec = vec2
                continue
            re, im = line.split(',')
            vec[n] = complex(float(re), float(im))
            n += 1
""")
r('vc_slice',F,VC,"""        for vec, part in ((vec1, lines[:L]), (vec2, lines[L + 1:])):
            for n, line in enumerate(part):
                lst = line.split(',')
                vec[n] = float(lst[0]) + 1j * float(lst[1])
""")
r('vc_rows',F,VC,"""        rows = []
        for line in lines:
            if line.strip() != 'break':
                lst = line.split(',')
                rows.append(complex(float(lst[0]), float(lst[1])))
        vec1[:] = rows[:L]
        vec2[:] = rows[L:]
""")
r('ld_helper',F,"""    with open(filename1) as f: 
        lines = f.readlines()

        lst = lines[0].split(',')

        patt1 = np.zeros([int(lst[0]), int(lst[1])],
                        dtype=np.complex128)

        lines.pop(0)

        for line in lines:
            lst = line.split(',')
            n = int(lst[0])
            m = int(lst[1])
            re = float(lst[2])
            im = float(lst[3])
            patt1[n, m] = re + 1j * im
""","""    patt1 = load_fdata(filename1)
""")
