R=[]
def r(*a): R.append(a)
O='spherepy/ops.py'; PY='spherepy/pysphi.py'
r('fixeven',O,"""    L = fdata.shape[0]
    if np.mod(L, 2) == 0:
        fdata[int(L / 2), :] = 0
""","""    nrows, ncols = fdata.shape
    if nrows % 2 != 0:
        return
    half = nrows // 2
    fdata[half] = np.zeros(ncols)
""")
r('pad',O,"""    M = int(np.floor(L / 2))

    fdata_extended[:, :] = 0
    fdata_extended[0:M, :] = fdata[0:M, :]
    fdata_extended[-1:-M:-1, :] = fdata[-1:-M:-1, :]
""","""    M = L // 2

    fdata_extended.fill(0)
    for row in xrange(M):
        fdata_extended[row] = fdata[row]
    for row in xrange(1, M):
        fdata_extended[Le - row, :] = fdata[L - row, :]
""")
r('sin',O,"""    work1 = np.zeros([nrows, ncols], dtype=np.complex128)
    work2 = np.zeros([nrows, ncols], dtype=np.complex128)

    work1[0, :] = fdata[-1, :]
    work1[1:, :] = fdata[0:-1, :]

    work2[0:-1] = fdata[1:, :]
    work2[-1, :] = fdata[0, :]

    fdata[:, :] = 1.0 / (2 * 1j) * (work1 - work2)
""","""    down = np.roll(fdata, 1, axis=0)
    up = np.roll(fdata, -1, axis=0)

    fdata[:, :] = (down - up) / 2j
""")
r('divsin',O,"""    g = np.zeros([nrows, ncols], dtype=np.complex128)
    g[L2, :] = 2 * 1j * fdata[L - 1, :]

    for k in xrange(L2, -L2, -1):
        g[k - 1, :] = 2 * 1j * fdata[k, :] + g[k + 1, :]

    fdata[:, :] = g
""","""    g = np.zeros_like(fdata)
    g[L2, :] = 2j * fdata[L2 + 1, :]

    k = L2
    while k > -L2:
        above = g[k + 1, :]
        g[k - 1, :] = above + 2j * fdata[k, :]
        k -= 1

    np.copyto(fdata, g)
""")
r('dtheta',O,"""    a = list(range(0, B))
    ap = list(range(-B, 0))
    a.extend(ap)
    
    dtheta = np.zeros([nrows, ncols], np.complex128)
    
    for k in xrange(0, ncols):
        dtheta[:, k] = a
        
    fdata[:, :] = 1j * dtheta * fdata
""","""    freqs = np.concatenate([np.arange(0, B), np.arange(-B, 0)])

    for k in xrange(ncols):
        fdata[:, k] = 1j * freqs * fdata[:, k]
""")
r('dphi',O,"""    a = list(range(0, int(B)))
    ap = list(range(-int(B), 0))
    a.extend(ap)
    
    dphi = np.zeros([nrows, ncols], np.complex128)
    
    for k in xrange(0, nrows):
        dphi[k, :] = a
        
    fdata[:, :] = 1j * dphi * fdata
""","""    freqs = np.array(list(range(B)) + list(range(-B, 0)))

    fdata *= 1j * freqs
""")
r('L_fc',O,"""    fd = np.copy(fdata)

    dphi_fc(fdata)
    divsin_fc(fdata)

    dtheta_fc(fd)

    return (1j * fdata, -1j * fd)
""","""    theta_part = fdata.copy()
    dtheta_fc(theta_part)

    for op in (dphi_fc, divsin_fc):
        op(fdata)

    theta_part *= -1j
    return 1j * fdata, theta_part
""")
r('ynunm',PY,"""        k = n - 2
        if(k >= 0):
            tmp1 = (n - k - 1.0) * (n + k + 2.0)
            tmp2 = (n - k - 2.0) * (n + k + 3.0) - 4.0 * m ** 2
            tmp4 = ((n - k) * (n + k + 1.0))
            out[k] = (tmp1 + tmp2) * out[k + 2] / tmp4

            for k in xrange(n - 4, -1, -2):
                tmp1 = (n - k - 1.0) * (n + k + 2.0)
                tmp2 = (n - k - 2.0) * (n + k + 3.0) - 4.0 * m ** 2
                tmp3 = (n - k - 3.0) * (n + k + 4.0);
                tmp4 = ((n - k) * (n + k + 1.0))
                out[k] = ((tmp1 + tmp2) * out[k + 2] - tmp3 * out[k + 4]) / tmp4
    return out    
""","""        def B(v):
            return (n - v) * (n + v + 1.0)

        k = n - 2
        while k >= 0:
            upper = (B(k + 1) + B(k + 2) - 4.0 * m * m) * out[k + 2]
            if k + 4 <= n:
                upper -= B(k + 3) * out[k + 4]
            out[k] = upper / B(k)
            k -= 2
    return out
""")
r('hkm',PY,"""    f = fdata[:, m]
    L1 = f.size
    MM = int(L1 / 2)
    Q = s.size

    ff = np.zeros(Q, dtype=np.complex128)
    for n in xrange(MM, L1):
        ff[n] = f[n - MM]

    for n in xrange(0, MM):
        ff[n] = f[n + MM]

    # For larger problems, this speeds things up pretty good.
    F = np.fft.fft(ff)
    S = np.fft.fft(s)
    out = 4 * np.pi * np.fft.ifft(F * S)

    return out[0:Nmax + 1]
""","""    column = fdata[:, m]
    nrows = len(column)
    half = nrows // 2

    ff = np.zeros(len(s), dtype=np.complex128)
    ff[:half] = column[half:2 * half]
    ff[half:nrows] = column[:nrows - half]

    conv = np.fft.ifft(np.fft.fft(ff) * np.fft.fft(s))

    return 4 * np.pi * conv[:Nmax + 1]
""")
r('bnm',PY,"""    out = np.zeros(Nmax - absm + 1, dtype=np.complex128)

    for n in xrange(absm, Nmax + 1):

        ynm = ynunm(n, m, n + 1)

        out[n - absm] = 1j ** (-m) * h[0] * ynm[0]

        if n != 0:
            out[n - absm] += 1j ** (-m) * 2 * np.sum(h[1:n + 1] * ynm[1:n + 1])
 
    return out
""","""    phase = 1j ** (-m)
    out = np.zeros(Nmax - absm + 1, dtype=np.complex128)

    for k in xrange(Nmax - absm + 1):
        n = k + absm
        ynm = ynunm(n, m, n + 1)
        total = h[0] * ynm[0]
        for nu in xrange(1, n + 1):
            total += 2 * h[nu] * ynm[nu]
        out[k] = phase * total

    return out
""")
r('fc_to_sc',PY,"""    c = bnm_vec_fc(gcoef, Nmax, 0)
    
    for m in xrange(1, Mmax + 1):
        a = bnm_vec_fc(gcoef, Nmax, -m)  
        c = np.concatenate([c, a]) 
        a = bnm_vec_fc(gcoef, Nmax, m)  
        c = np.concatenate([c, a])

    return c
""","""    parts = [bnm_vec_fc(gcoef, Nmax, 0)]

    for m in xrange(1, Mmax + 1):
        parts.append(bnm_vec_fc(gcoef, Nmax, -m))
        parts.append(bnm_vec_fc(gcoef, Nmax, m))

    return np.concatenate(parts)
""")
r('mindx',PY,"""    ind = 0
    NN = nmax + 1

    if np.abs(m) > mmax:
        raise Exception("|m| cannot be larger than mmax")

    if (m != 0):
        ind = NN
        ii = 1
        for i in xrange(1, np.abs(m)):
            ind = ind + 2 * (NN - i)
            ii = i + 1

        if m > 0:
            ind = ind + NN - ii

    return ind
""","""    absm = abs(m)

    if absm > mmax:
        raise Exception("|m| cannot be larger than mmax")

    if absm == 0:
        return 0

    ind = nmax + 1 + sum(2 * (nmax + 1 - i) for i in range(1, absm))
    return ind if m < 0 else ind + nmax + 1 - absm
""")
r('fcvec',PY,"""    F = np.zeros(int(nrows), dtype=np.complex128)
    K = nmax + 1 

    for n in xrange(np.abs(m), K):
        
        ynm = ynunm(n, m, K)

        F[0:nmax + 1] += vec[n - np.abs(m)] * ynm.T

    F[0:K] = F[0:K] * 1j ** m

    mm = (-1) ** m
    if np.mod(nrows, 2) == 0:
        H = int(nrows / 2 - 1)
    else:
        H = int((nrows - 1) / 2)

    for k in xrange(0, H):
        F[-(k + 1)] = mm * F[k + 1]

    return F
""","""    K = nmax + 1
    absm = np.abs(m)
    top = np.zeros(K, dtype=np.complex128)

    for i, n in enumerate(xrange(absm, K)):
        top += vec[i] * ynunm(n, m, K)

    F = np.zeros(int(nrows), dtype=np.complex128)
    F[:K] = (1j ** m) * top

    H = int((nrows - 1) // 2)
    sign = 1 if m % 2 == 0 else -1
    for k in xrange(1, H + 1):
        F[-k] = sign * F[k]

    return F
""")
r('sc_to_fc',PY,"""    for k in xrange(0, int(ncols / 2)):
        if k < mmax:
            kk = k
            ind = mindx(kk, nmax, mmax)
            vec = spvec[ind:ind + nmax - np.abs(kk) + 1]
            fdata[:, kk] = fcvec_m_sc(vec, kk, nmax, nrows)

            kk = -(k + 1)
            ind = mindx(kk, nmax, mmax)
            vec = spvec[ind:ind + nmax - np.abs(kk) + 1]
            fdata[:, kk] = fcvec_m_sc(vec, kk, nmax, nrows)

        if k == mmax:
            kk = k
            ind = mindx(kk, nmax, mmax)
            vec = spvec[ind:ind + nmax - np.abs(kk) + 1]
            fdata[:, kk] = fcvec_m_sc(vec, kk, nmax, nrows)

    return fdata   
""","""    def fill(order):
        start = mindx(order, nmax, mmax)
        stop = start + nmax - np.abs(order) + 1
        fdata[:, order] = fcvec_m_sc(spvec[start:stop], order, nmax, nrows)

    for k in xrange(0, int(ncols / 2)):
        if k > mmax:
            break
        fill(k)
        if k < mmax:
            fill(-(k + 1))

    return fdata
""")
r('s_data',PY,"""    for nu in xrange(-MM, MM + Nmax + 1):
        if np.mod(nu, 2) == 1:
            s[nu - MM] = -1j / nu
""","""    for idx in xrange(0, L1 + Nmax + 1):
        nu = idx - MM
        if nu % 2 == 0:
            continue
        s[nu - MM] = -1j / nu
""")
r('spf',PY,"""    A = Q;
    while(A != 1):
        if(np.mod(A, 2) == 0):
            A = A / 2
        elif(np.mod(A, 3) == 0):
            A = A / 3
        elif(np.mod(A, 5) == 0):
            A = A / 5
        elif(np.mod(A, 7) == 0):
            A = A / 7;
        else:
            A = Q + 1;
            Q = A;

    return Q
""","""    A = Q
    while A > 1:
        for p in (2, 3, 5, 7):
            if A % p == 0:
                A = A // p
                break
        else:
            Q = Q + 1
            A = Q

    return Q
""")
r('ynnm',PY,"""        out = a
        for k in xrange(1, n + 1):
            out *= np.sqrt((2.0 * k + 1.0) / 8.0 / k)

        if(n != pm):
            for k in xrange(n - 1, pm - 1, -1):
                out *= np.sqrt((n + k + 1.0) / (n - k))
    return out
""","""        k = 1
        while k <= n:
            a = a * np.sqrt((2.0 * k + 1.0) / (8.0 * k))
            k += 1
        for k in reversed(range(pm, n)):
            a = a * np.sqrt((n + k + 1.0) / (n - k))
        out = a
    return out
""")
