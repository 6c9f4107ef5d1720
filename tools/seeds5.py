F = 'spherepy/spherepy.py'
P = 'spherepy/pysphi.py'
O = 'spherepy/ops.py'
B = 'spherepy/sbessel.py'
C = 'src/csphi.c'
FL = 'spherepy/file.py'
V = 'spherepy/verify.py'
HEAD = 'import numpy as np, spherepy as sp\nimport spherepy.spherepy as core\nfrom spherepy import pysphi, csphi, ops\nimport os, tempfile, shutil\n'
SEEDS = [
 dict(id='c03-full-self', property='C03', file=F, edits=[("""                new_nmax = arg[0].stop
                if new_nmax > self.mmax:
                    new_mmax = self.mmax
                else:
                    new_mmax = new_nmax

                N = new_nmax + 1;
""", """                new_nmax = arg[0].stop
                if new_nmax == self.nmax:
                    return self
                if new_nmax > self.mmax:
                    new_mmax = self.mmax
                else:
                    new_mmax = new_nmax

                N = new_nmax + 1;
""")], needs='a truncation at the full degree whose result is then written', breaks='the truncation shares its modes with the original',
   demo=HEAD + """c = sp.ones_coefs(3, 2)
d = c[0:3, :]
d[1, 1] = 7
assert c[1, 1] == 1
"""),
 dict(id='c05-imag-monopole', property='C05', file=F, edits=[("""        vec1[0] = 0 + 1j*0
        vec2[0] = 0 + 1j*0
""", """        if np.real(vec1[0]) != 0:
            vec1[0] = 0 + 1j*0
        if np.real(vec2[0]) != 0:
            vec2[0] = 0 + 1j*0
""")], needs='component vectors whose first entry is purely imaginary', breaks='the vector set keeps a monopole',
   demo=HEAD + """v = sp.VectorCoefs(np.array([1j, 1, 2, 3]), np.array([1, 1, 2, 3j]), 1, 1)
assert v.scoef1._vec[0] == 0 and v.scoef2._vec[0] == 0
"""),
 dict(id='c06-window-one', property='C06', file=F, edits=[("""        for m in xrange(1, self.mmax + 1):
            self.__setitem__((slce, -m), self.__getitem__((slce, -m)) * vec[m:])
""", """        for m in xrange(1, self.mmax + 1):
            if vec[m] == 1 and vec[-1] == 1:
                continue
            self.__setitem__((slce, -m), self.__getitem__((slce, -m)) * vec[m:])
""")], needs='a window that is one at degree m and at the last degree but not between', breaks='the orders m and -m are left alone',
   demo=HEAD + """c = sp.ones_coefs(3, 2)
c.window(np.array([1., 1., 5., 1.]))
assert c[2, 1] == 5 and c[2, -1] == 5 and c[2, 0] == 5
"""),
 dict(id='c07-aps-imag', property='C07', file=F, edits=[("""            angular_power[n] = np.sum( np.abs(mode) ** 2 )
""", """            angular_power[n] = np.sum( np.abs(mode[mode.real != 0]) ** 2 )
""")], needs='a purely imaginary mode', breaks='the mode contributes nothing to the angular power spectrum',
   demo=HEAD + """c = sp.zeros_coefs(2, 1)
c[1, 1] = 2j
assert c.angular_power_spectrum()[1] == 4
"""),
 dict(id='c14-mmax-zero', property='C14', file=P, edits=[("""        if k == mmax:
            kk = k
""", """        if k == mmax and k != 0:
            kk = k
""")], needs='the Python inverse transform of a set with mmax = 0', breaks='the inverse transform of a rotationally symmetric set is zero',
   demo=HEAD + """out = pysphi.sc_to_fc(np.ones(3, complex), 2, 0, 6, 4)
ref = np.zeros((6, 4), complex)
csphi.sc_to_fc(ref, np.ones(3, complex), 2, 0)
assert np.allclose(out, ref)
"""),
 dict(id='c16-nyquist-dphi', property='C16', file=O, edits=[("""    B = int(ncols / 2)  # As always, we assume nrows and ncols are even
    
    a = list(range(0, int(B)))
    ap = list(range(-int(B), 0))
    a.extend(ap)
""", """    B = int(ncols / 2)  # As always, we assume nrows and ncols are even
    
    a = list(range(0, int(B)))
    ap = list(range(-int(B), 0))
    ap[0] = 0
    a.extend(ap)
""")], needs='Fourier data with content at the highest column frequency', breaks='the derivative drops the highest column frequency',
   demo=HEAD + """f = np.ones((4, 6), complex)
ops.dphi_fc(f)
assert np.allclose(f[0], 1j * np.array([0, 1, 2, -3, -2, -1]))
"""),
 dict(id='c18-append', property='C18', file=FL, edits=[("""    with open(filename, 'w') as f: 
        f.write("{0},{1}\\n".format(nmax, mmax))
""", """    with open(filename, 'a') as f: 
        f.write("{0},{1}\\n".format(nmax, mmax))
""")], needs='a save to a file that already exists', breaks='the old content stays in front, so the load returns the old set',
   demo=HEAD + """import spherepy.file as fl
w = tempfile.mkdtemp()
try:
    a = sp.ones_coefs(2, 1)
    fl.save_coef(a, w + '/a')
    fl.save_coef(a * 2, w + '/a')
    assert np.all(fl.load_coef(w + '/a')._vec == 2)
finally:
    shutil.rmtree(w)
"""),
 dict(id='c19-vec-same', property='C19', file=F, edits=[("""        vec2 = np.random.normal(mu, sigma, L) + \\
              1j * np.random.normal(mu, sigma, L)
        vec2[0] = 0
""", """        vec2 = vec1.imag + 1j * vec1.real
        vec2[0] = 0
""")], needs='two components of one random vector set compared', breaks='the second component repeats the draws of the first',
   demo=HEAD + """v = sp.random_coefs(4, 2, coef_type=sp.vector)
a, b = v.scoef1._vec[1:], v.scoef2._vec[1:]
assert np.any(a.real != b.imag)
"""),
 dict(id='c20-no-copy-axisym', property='C20', file=F, edits=[("""    sc1 = vcoefs.scoef1.copy()
    sc2 = vcoefs.scoef2.copy()
""", """    sc1 = vcoefs.scoef1.copy() if vcoefs.mmax else vcoefs.scoef1
    sc2 = vcoefs.scoef2.copy() if vcoefs.mmax else vcoefs.scoef2
""")], needs='an inverse vector transform of a set with mmax = 0', breaks='the window is applied to the caller\'s coefficients',
   demo=HEAD + """v = sp.random_coefs(3, 0, coef_type=sp.vector)
a = np.copy(v.scoef1._vec)
sp.vispht(v, 6, 4)
assert np.all(a == v.scoef1._vec)
"""),
 dict(id='c22-j1-branch', property='C22', file=B, edits=[("""    if(np.abs(out[0]) >= np.abs(j1)):
""", """    if(out[0] >= j1):
""")], needs='an argument near a zero of j0 where j1 is negative', breaks='j1 is computed from the vanishing j0',
   demo=HEAD + """from spherepy import sbessel
for x in (2 * np.pi, 4 * np.pi, 6 * np.pi):
    j = sbessel.sbesselj(x, 4)
    assert abs(j[1] + np.cos(x) / x) < 1e-9, (x, j)
"""),
 dict(id='c23-2d-zero', property='C23', file=F, edits=[("""            sc_array[m:self.nmax + 1, self.mmax - m] = lst[2 * m - 1]
            sc_array[m:self.nmax + 1, self.mmax + m] = lst[2 * m]

        return sc_array
""", """            if not np.any(lst[2 * m]):
                continue
            sc_array[m:self.nmax + 1, self.mmax - m] = lst[2 * m - 1]
            sc_array[m:self.nmax + 1, self.mmax + m] = lst[2 * m]

        return sc_array
""")], needs='a set with modes of order -m and none of order +m', breaks='the 2-D view drops the modes of order -m',
   demo=HEAD + """c = sp.zeros_coefs(2, 2)
c[2, -1] = 3
assert c._array_2d_repr()[2, 1] == 3
"""),
 dict(id='c27-upper-half', property='C27', file=V, edits=[("""    diff = np.abs(fdata - ffdata)
    return np.max(diff)
""", """    diff = np.abs(fdata - ffdata)[0:fsc.nmax + 1, :]
    return np.max(diff)
""")], needs='stored Fourier data that is wrong only at a negative row frequency', breaks='the deviation is not reported',
   demo=HEAD + """import spherepy.verify as vf, spherepy.file as fl
w = tempfile.mkdtemp()
try:
    c = sp.ones_coefs(2, 1)
    fl.save_coef(c, w + '/c')
    f = np.zeros((8, 4), complex)
    csphi.sc_to_fc(f, c._vec, 2, 1)
    f[7, 1] += 5
    with open(w + '/f', 'w') as g:
        g.write('8,4\\n')
        for i in range(8):
            for j in range(4):
                g.write('%d,%d,%.16e,%.16e\\n' % (i, j, f[i, j].real, f[i, j].imag))
    assert vf.verify_fdata(w + '/f', w + '/c') > 4
finally:
    shutil.rmtree(w)
"""),
 dict(id='c15-inds', property='C15', file=C, edits=[("""	inds = (int*)malloc((2*Mmax+1)*sizeof(int));
	memset(inds,0,(2*Mmax+1)*sizeof(int));


""", """	inds = (int*)malloc((2*Mmax+(Mmax > 0))*sizeof(int));
	memset(inds,0,(2*Mmax+(Mmax > 0))*sizeof(int));


""")], needs='a forward transform with mmax = 0', breaks='the table of orders is empty, so its one write is out of bounds',
   demo=r'''import subprocess, tempfile, os, shutil
w = tempfile.mkdtemp()
open(w + '/d.c', 'w').write(r"""
#include <stdlib.h>
#include "csphi.h"
int main(void) {
  int N = 4, R = 12, C = 8, L = 5;
  SCOMPLEX *f = calloc(R*C, sizeof(*f)), *s = calloc(L, sizeof(*s));
  fc_to_sc(f, R, C, s, L, N, 0);
  return 0;
}
""")
assert subprocess.run(['gcc', '-w', '-fsanitize=address', '-Isrc', w + '/d.c', 'src/csphi.c', 'src/kiss_fft.c', '-lm', '-o', w + '/d']).returncode == 0
r = subprocess.run([w + '/d'], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')).returncode
shutil.rmtree(w)
assert r == 0, r
'''),
]
