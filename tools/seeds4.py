F = 'spherepy/spherepy.py'
P = 'spherepy/pysphi.py'
O = 'spherepy/ops.py'
B = 'spherepy/sbessel.py'
C = 'src/csphi.c'
FL = 'spherepy/file.py'
V = 'spherepy/verify.py'
HEAD = 'import numpy as np, spherepy as sp\nimport spherepy.spherepy as core\nfrom spherepy import pysphi, csphi, ops\nimport os, tempfile, shutil\n'
SEEDS = [
 dict(id='c21-zero-mirror', property='C21', file=F, edits=[("""                s = -dat[np.mod(nrows - n, nrows),
                              np.mod(int(np.floor(ncols / 2)) + m, ncols)]
                t = dat[n, m]

                if s != 0:
                    sabs = np.abs((s - t) / s)
                    if sabs >= sv:
                        sv = sabs
                elif t != 0:
                    sabs = 1.0
                    if sabs >= sv:
                        sv = sabs
""", """                s = -dat[np.mod(nrows - n, nrows),
                              np.mod(int(np.floor(ncols / 2)) + m, ncols)]
                t = dat[n, m]

                if s != 0:
                    sabs = np.abs((s - t) / s)
                    if sabs >= sv:
                        sv = sabs
                elif t != 0:
                    sabs = min(1.0, np.abs(t))
                    if sabs >= sv:
                        sv = sabs
                else:
                    sv = 0.0
""")], needs='transverse data with a deviation at an earlier grid point and a pair of zeros at a later one', breaks='a symmetric pair of zeros resets the measure, so asymmetric data passes for symmetric',
   demo=HEAD + """d = np.zeros((6, 4), complex)
d[1, 0], d[5, 2] = 2.0, 2.0
p = sp.TransversePatternUniform(d, np.zeros((6, 4), complex), doublesphere=True)
assert p.single_val[0] > 1, p.single_val
assert not p.is_symmetric
"""),
 dict(id='c21-row-zero', property='C21', file=F, edits=[("""                s = self._dsphere[np.mod(nrows - n, nrows),
                              np.mod(int(np.floor(ncols / 2)) + m, ncols)]
""", """                s = self._dsphere[nrows - 1 - n if 2 * n == nrows else np.mod(nrows - n, nrows),
                              np.mod(int(np.floor(ncols / 2)) + m, ncols)]
""")], needs='data that varies between the south pole row and the row after it', breaks='the south pole row is compared with its neighbour',
   demo=HEAD + """p = sp.ScalarPatternUniform(np.arange(8.).reshape(4, 2) * 0 + np.array([[1.], [2.], [3.], [4.]]))
assert p.is_symmetric and p.single_val == 0
"""),
 dict(id='c27-rel-computed', property='C27', file=V, edits=[("""    return (sp.L2_patt(diff), sp.LInf_patt(diff),
            sp.L2_patt(diff) / sp.L2_patt(vfpatt),
            sp.LInf_patt(diff) / sp.LInf_patt(vfpatt))
""", """    return (sp.L2_patt(diff), sp.LInf_patt(diff),
            sp.L2_patt(diff) / sp.L2_patt(vpatt),
            sp.LInf_patt(diff) / sp.LInf_patt(vfpatt))
""")], needs='a stored transverse pattern that differs from the stored coefficients', breaks='the relative error is taken against the computed pattern instead of the stored one',
   demo=HEAD + """import spherepy.file as fl, spherepy.verify as vf
w = tempfile.mkdtemp()
try:
    rng = np.random.RandomState(3)
    v = sp.random_coefs(3, 2, coef_type=sp.vector)
    p = sp.vispht(v, 6, 8) * 2.0
    fl.save_coef(v.scoef1, w + '/c1'); fl.save_coef(v.scoef2, w + '/c2')
    for x, n in ((p.theta, '/p1'), (p.phi, '/p2')):
        with open(w + n, 'w') as f:
            f.write('%d,%d\\n' % x.shape)
            for i in range(x.shape[0]):
                for j in range(x.shape[1]):
                    f.write('%d,%d,%.17e,%.17e\\n' % (i, j, x[i, j].real, x[i, j].imag))
    r = vf.verify_vispht(w + '/p1', w + '/p2', w + '/c1', w + '/c2')
    assert abs(r[2] - 0.5) < 1e-9, r
finally:
    shutil.rmtree(w)
"""),
 dict(id='c18-vcoef-zero', property='C18', file=FL, edits=[("""                re = float(lst[0])
                im = float(lst[1])

                if in_vec2:
""", """                re = float(lst[0])
                im = float(lst[1])

                if re == 0 and im == 0:
                    continue

                if in_vec2:
""")], needs='a zero coefficient before a nonzero one in a MATLAB vector file', breaks='the entries after a zero are stored one place too early',
   demo=HEAD + """import spherepy.file as fl
w = tempfile.mkdtemp()
try:
    a = [1, 2, 0, 4]; b = [5, 6, 7, 8]
    with open(w + '/v', 'w') as f:
        f.write('1,1,2.5\\n' + ''.join('%d,0\\n' % x for x in a) + 'break\\n' + ''.join('%d,%d\\n' % (x, x) for x in b))
    v, d = fl.load_vcoef(w + '/v')
    assert d == 2.5 and np.allclose(v.scoef1._vec[1:], [2, 0, 4]), v.scoef1._vec
    assert np.allclose(v.scoef2._vec[1:], [6 + 6j, 7 + 7j, 8 + 8j])
finally:
    shutil.rmtree(w)
"""),
 dict(id='c22-array-dup', property='C22', file=B, edits=[("""    first_time = True  
    for x in xvec:
        a = sbessely(x, N)
        if first_time:
""", """    first_time = True  
    last = None
    for x in xvec:
        if last is not None and np.abs(x) == np.abs(last):
            a = out[-1]
        else:
            a = sbessely(x, N)
        last = x
        if first_time:
""")], needs='two neighbouring arguments of opposite sign', breaks='the column of -x repeats the one of x',
   demo="""import numpy as np
from spherepy import sbessel as b
A = b.sbessely_array([1.5, -1.5], 4)
assert np.allclose(A[:, 1], b.sbessely(-1.5, 4)), A
"""),
 dict(id='c11-order-cache', property='C11', file=P, edits=[("""def ynunm(n, m, L):
    \"\"\"Fourier coefficients for spherical harmonics\"\"\"

    out = np.zeros(L, dtype=np.float64)
""", """_last = [None, None]

def ynunm(n, m, L):
    \"\"\"Fourier coefficients for spherical harmonics\"\"\"

    if _last[0] == (n, np.abs(m)) and _last[1].size >= L:
        return _last[1][:L]

    out = np.zeros(L, dtype=np.float64)
    _last[0], _last[1] = (n, np.abs(m)), out
""")], needs='a call whose result the caller changes, followed by a call for the same degree and order', breaks='the memorised vector is the one handed out earlier',
   demo=HEAD + """a = pysphi.ynunm(4, 2, 6)
k = a.copy()
a *= 2
b = pysphi.ynunm(4, -2, 6)
assert np.allclose(b, k), b
"""),
 dict(id='c13-real-phi', property='C13', file=F, edits=[("""    ftheta = f1[0] - 1j * f2[1]
    fphi = f1[1] + 1j * f2[0]
    
    dtheta = np.fft.ifft2(ftheta) * dnrows * ncols
    dphi = np.fft.ifft2(fphi) * dnrows * ncols

    return TransversePatternUniform(dtheta, dphi, doublesphere=True)

def ispht_slow(""", """    ftheta = f1[0] - 1j * f2[1]
    fphi = f1[1] + 1j * f2[0]
    if not np.any(sc2._vec):
        fphi[2, :] = 0
    
    dtheta = np.fft.ifft2(ftheta) * dnrows * ncols
    dphi = np.fft.ifft2(fphi) * dnrows * ncols

    return TransversePatternUniform(dtheta, dphi, doublesphere=True)

def ispht_slow(""")], needs='a vector set whose second component is zero', breaks='one row frequency of the phi component is lost',
   demo=HEAD + """v = sp.zeros_coefs(3, 3, coef_type=sp.vector)
w = sp.zeros_coefs(3, 3, coef_type=sp.vector)
for n in range(1, 4):
    for m in range(-n, n + 1):
        v[n, m] = (n + 1j * m, 0)
        w[n, m] = (n + 1j * m, 1e-9)
a, b = sp.vispht(v, 6, 8), sp.vispht(w, 6, 8)
assert np.allclose(a.phi, b.phi, atol=1e-7)
"""),
 dict(id='c26-even-fix', property='C26', file=O, edits=[]
 , needs='', breaks='', demo=''),
]
SEEDS = [s for s in SEEDS if s['edits']]
