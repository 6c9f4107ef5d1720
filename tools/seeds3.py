F = 'spherepy/spherepy.py'
P = 'spherepy/pysphi.py'
O = 'spherepy/ops.py'
B = 'spherepy/sbessel.py'
C = 'src/csphi.c'
K = 'src/kiss_fft.c'
FL = 'spherepy/file.py'
HEAD = 'import numpy as np, spherepy as sp\nimport spherepy.spherepy as core\nfrom spherepy import pysphi, csphi, ops\n'
ASAN = r'''import subprocess, tempfile, os, sys
w = tempfile.mkdtemp()
open(w + '/d.c', 'w').write(r"""%s""")
p = subprocess.run(['gcc', '-g', '-w', '-fsanitize=address', '-fno-sanitize-recover', '-Isrc', w + '/d.c', 'src/csphi.c', 'src/kiss_fft.c', '-lm', '-o', w + '/d'])
assert p.returncode == 0
r = subprocess.run([w + '/d'], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')).returncode
import shutil
shutil.rmtree(w)
assert r == 0, r
'''
SEEDS = [
 dict(id='c10-skip-imag', property='C10', file=C, edits=[("""		ynunm(n,m,y,len);
                
		//TODO""", """		if(vec[n-absm].r == 0)
			continue;

		ynunm(n,m,y,len);
                
		//TODO""")], needs='a purely imaginary coefficient and the C extension', breaks='modes whose real part is zero are skipped by the inverse transform',
   demo=HEAD + 'c = sp.zeros_coefs(3, 2)\nc[2, 1] = 1j\na = sp.ispht(c, 6, 8).cdata\nb = sp.ispht_slow(c, 6, 8).cdata\nassert np.allclose(a, b)\n'),
 dict(id='c11-zero-stop', property='C11', file=P, edits=[("""                tmp4 = ((n - k) * (n + k + 1.0))
                out[k] = ((tmp1 + tmp2)""", """                tmp4 = ((n - k) * (n + k + 1.0))
                if out[k + 2] == 0:
                    break
                out[k] = ((tmp1 + tmp2)""")], needs='n = 2*m**2 with |m| >= 2, where one interior Fourier coefficient vanishes', breaks='the recurrence stops at a vanishing coefficient',
   demo=HEAD + 'y = pysphi.ynunm(8, 2, 9)\nz = np.zeros(9); csphi.ynunm(8, 2, z)\nassert abs(y[6]) < 1e-12 and abs(y[4]) > 1e-3\nassert np.allclose(y, z)\n'),
 dict(id='c12-slow-even', property='C12', file=F, edits=[("""    nrows = ssphere._dsphere.shape[0]
    ncols = ssphere._dsphere.shape[1]

    if np.mod(nrows, 2) == 1 or""", """    nrows = ssphere._dsphere.shape[0]
    ncols = ssphere._dsphere.shape[1]

    mmax = min(mmax, max(nmax - 1, 0))

    if np.mod(nrows, 2) == 1 or""")], needs='spht_slow with mmax == nmax', breaks='the highest order is dropped (and mmax is not the requested one)',
   demo=HEAD + 'p = sp.random_patt_uniform(6, 10)\nassert sp.spht_slow(p, 3, 2).mmax == 2\nc = sp.spht_slow(p, 3, 3)\nassert c.mmax == 3\n'),
 dict(id='c12-hkm-mid', property='C12', file=P, edits=[("""    for n in xrange(MM, L1):
        ff[n] = f[n - MM]

    for n in xrange(0, MM):
        ff[n] = f[n + MM]
""", """    for n in xrange(MM, L1):
        ff[n] = f[n - MM]

    for n in xrange(2, MM):
        ff[n] = f[n + MM]
""")], needs='the Python path and nmax = nrows-2 with energy in the highest rows', breaks='the two most negative row frequencies are left out of the quadrature',
   demo=HEAD + 'rng = np.random.RandomState(1)\np = sp.ScalarPatternUniform(rng.randn(6, 8) + 1j * rng.randn(6, 8))\nc = sp.spht(p, 4, 3)\nd = sp.spht_slow(p, 4, 3)\nassert np.allclose(c._vec, d._vec)\n'),
 dict(id='c13-window-deg', property='C13', file=F, edits=[("""    nvec = np.zeros(vcoefs.nmax + 1, dtype=np.complex128)
    for n in xrange(1, vcoefs.nmax + 1):
        nvec[n] = 1.0 / np.sqrt(n * (n + 1.0))

    sc1 = vcoefs.scoef1.copy()""", """    nvec = np.zeros(vcoefs.nmax + 1, dtype=np.complex128)
    for n in xrange(1, min(vcoefs.nmax, nrows - 2) + 1):
        nvec[n] = 1.0 / np.sqrt(n * (n + 1.0))

    if vcoefs.nmax > 25:
        nvec[26:] = 1.0 / np.arange(26.5, vcoefs.nmax + 1)

    sc1 = vcoefs.scoef1.copy()""")], needs='a vector set with degrees above 25', breaks='high degrees are scaled by 1/(n+1/2) instead of 1/sqrt(n(n+1))',
   demo=HEAD + 'c = sp.zeros_coefs(27, 1, coef_type=sp.vector)\nc[27, 1] = (1.0, 0.5)\nd = sp.vspht(sp.vispht(c), 27, 1)\nassert abs(d[27, 1][0] - 1) < 1e-7\n'),
 dict(id='c14-sdata-last', property='C14', file=C, edits=[("for(k=mm;k<=mm+nn - 1;k++)", "for(k=mm;k<mm+nn - 1;k++)")],
   needs='Fourier data with a nonzero highest row frequency, nrows/2 + nmax odd', breaks='the last kernel entry is missing in C, so h[nmax] differs from the Python routine',
   demo=HEAD + 'rng = np.random.RandomState(1)\nf = rng.randn(10, 6) + 1j * rng.randn(10, 6)\nf[5] = 3 + 1j\nfor N in (3, 4):\n    sc = np.zeros((N + 1) + 2 * (2 * N + 1 - 2) + 2 - 0, complex)\n    L = (N + 1) + 2 * (2 * (N + 1) - 2 - 1)\n    sc = np.zeros(L, complex)\n    csphi.fc_to_sc(f.copy(), sc, N, 2)\n    assert np.allclose(sc, pysphi.fc_to_sc(f, N, 2)), N\n'),
 dict(id='c14-start-m', property='C14', file=C, edits=[("	if(n < pm){\n", "	if(n < m){\n")], needs='the start value for a negative order m < -n', breaks='the C routine returns a nonzero value where the Python one returns zero',
   demo=HEAD + 'assert csphi.ynnm(2, 3) == 0\nassert csphi.ynnm(2, -3) == pysphi.ynnm(2, -3)\n'),
 dict(id='c15-leak', property='C15', file=C, edits=[("""	free(s);
	free(kiss_cfg_fw);
	free(kiss_cfg_bw);
""", """	free(s);
	free(kiss_cfg_fw);
	if(Mmax > 0)
		free(kiss_cfg_bw);
""")], needs='a forward transform with mmax = 0', breaks='the backward configuration is never released',
   demo=r'''import subprocess, tempfile, os, shutil
w = tempfile.mkdtemp()
open(w + '/a.h', 'w').write('#include <stdlib.h>\nextern int live; void *xm(size_t); void xf(void*);\n#ifndef DRV\n#define malloc xm\n#define free xf\n#endif\n')
open(w + '/d.c', 'w').write(r"""
#define DRV
#include "a.h"
#include "csphi.h"
int live; void *xm(size_t n) { live++; return malloc(n); } void xf(void *p) { if (p) live--; free(p); }
int main(void) {
  int N = 4, R = 12, C = 8, L = 5, i;
  SCOMPLEX *f = calloc(R*C, sizeof(*f)), *s = calloc(L, sizeof(*s));
  fc_to_sc(f, R, C, s, L, N, 0);
  return live;
}
""")
ok = all(subprocess.run(['gcc', '-w', '-c', '-Isrc', '-I' + w, '-include', w + '/a.h', s, '-o', w + '/' + os.path.basename(s) + '.o'] + (['-DDRV'] if s.endswith('d.c') else [])).returncode == 0
    for s in ('src/csphi.c', 'src/kiss_fft.c', w + '/d.c'))
assert ok and subprocess.run(['gcc'] + [w + '/%s.o' % x for x in ('csphi.c', 'kiss_fft.c', 'd.c')] + ['-lm', '-o', w + '/d']).returncode == 0
r = subprocess.run([w + '/d']).returncode
shutil.rmtree(w)
assert r == 0, r
'''),
 dict(id='c16-pad-top', property='C16', file=O, edits=[("    fdata_extended[0:M, :] = fdata[0:M, :]\n", "    fdata_extended[0:M + 1, :] = fdata[0:M + 1, :]\n")],
   needs='data whose highest row frequency was not cleared before padding', breaks='padding keeps the ambiguous highest frequency',
   demo=HEAD + 'f = np.ones((6, 4), complex)\ng = np.zeros((8, 4), complex)\nops.pad_rows_fdata(f, g)\nassert np.all(g[3] == 0) and np.all(g[:3] == 1) and np.all(g[-2:] == 1)\n'),
 dict(id='c16-sin-clear', property='C16', file=O, edits=[("    fdata[int(M + 1), :] = 0\n    \n", "    fdata[int(M), :] = 0\n\n")],
   needs='data with a nonzero row just below the most negative frequency', breaks='the sine operator clears the highest row instead of the row after it',
   demo=HEAD + 'f = np.zeros((8, 2), complex); f[5] = 1\nops.sin_fc(f)\nassert np.all(f == 0)\n'),
 dict(id='c17-half-cols', property='C17', file=F, edits=[("""    if mmax >= ssphere.ncols / 2:
        raise ValueError(err_msg['mmax_too_lrg'])
""", """    if mmax > ssphere.ncols / 2:
        raise ValueError(err_msg['mmax_too_lrg'])
""")], needs='mmax equal to half the number of columns', breaks='the ambiguous order mmax = ncols/2 is accepted',
   demo=HEAD + 'p = sp.ones_patt_uniform(8, 6)\nsp.spht(p, 5, 2)\ntry:\n    sp.spht(p, 5, 3)\nexcept ValueError:\n    pass\nelse:\n    raise SystemExit(1)\n'),
 dict(id='c18-digits', property='C18', file=FL, edits=[('frmstr = "{0:.16e},{1:.16e}\\n"', 'frmstr = "{0:.15e},{1:.15e}\\n"')],
   needs='values that need 17 significant digits', breaks='the last bits of the coefficients are lost',
   demo=HEAD + 'import tempfile, os, shutil\nd = tempfile.mkdtemp()\nc = sp.zeros_coefs(2, 1)\nc[1, 1] = (0.1 + 0.2) * 3.3 + 1j * np.nextafter(1, 2)\nsp.file.save_coef(c, d + "/f")\ne = sp.file.load_coef(d + "/f")\nshutil.rmtree(d)\nassert np.array_equal(c._vec, e._vec)\n'),
 dict(id='c19-imag-mean', property='C19', file=F, edits=[("""        vec = np.random.normal(mu, sigma, L) + \\
              1j * np.random.normal(mu, sigma, L)
        return  ScalarCoefs""", """        vec = np.random.normal(mu, sigma, L) + \\
              1j * np.random.normal(0.0, sigma, L)
        return  ScalarCoefs""")], needs='a nonzero mean', breaks='the imaginary parts are drawn around zero instead of mu',
   demo=HEAD + 'np.random.seed(3)\nc = sp.random_coefs(10, 10, mu=50.0, sigma=1.0)\nassert np.all(np.abs(c._vec - 50 - 50j) < 20)\n'),
 dict(id='c20-copy-view', property='C20', file=F, edits=[("        vec2 = np.copy(self.scoef2._vec)\n", "        vec2 = np.ravel(self.scoef2._vec)\n")],
   needs='changing a copy and looking at the second component of the original', breaks='the copy shares the second component with the original',
   demo=HEAD + 'c = sp.random_coefs(4, 3, coef_type=sp.vector)\nd = c.copy()\nd[2, 1] = (7, 8)\nassert c[2, 1][1] != 8\n'),
 dict(id='c22-h2', property='C22', file=B, edits=[("    for n in xrange(2, N):\n        out[n] = ((2.0 * n - 1.0) / x)", "    for n in xrange(2, N):\n        out[n] = ((2.0 * n - 1.0) / np.abs(x))")],
   needs='a negative argument', breaks='the recurrence of y_n uses |x|',
   demo='import numpy as np\nfrom spherepy import sbessel\nfor x in (1.5, -1.5):\n    y = sbessel.sbessely(x, 4)\n    assert abs(y[2] - (3 / x * y[1] - y[0])) < 1e-12\n'),
 dict(id='c24-generic', property='C24', file=K, edits=[("if (twidx>=Norig) twidx-=Norig;", "if (twidx>=Norig) twidx=0;")],
   needs='an FFT length with a prime factor above 5 (the transforms only use lengths 2^a 3^b 5^c)', breaks='wrapped twiddle indices are reset to zero',
   demo=r'''import subprocess, tempfile, os, shutil
w = tempfile.mkdtemp()
open(w + '/d.c', 'w').write(r"""
#include "kiss_fft.h"
int main(void) {
  int n, j, k;
  for (n = 1; n < 60; n++) {
    kiss_fft_cfg c = kiss_fft_alloc(n, 0, 0, 0);
    kiss_fft_cpx x[64], y[64];
    for (j = 0; j < n; j++) { x[j].r = j % 5; x[j].i = (j*j) % 7; }
    kiss_fft(c, x, y);
    for (k = 0; k < n; k++) {
      double r = 0, i = 0;
      for (j = 0; j < n; j++) { double a = -2*3.141592653589793*((j*k)%n)/n; r += x[j].r*cos(a) - x[j].i*sin(a); i += x[j].r*sin(a) + x[j].i*cos(a); }
      if (fabs(r - y[k].r) + fabs(i - y[k].i) > 1e-9) return 1;
    }
    free(c);
  }
  return 0;
}
""")
assert subprocess.run(['gcc', '-w', '-Isrc', w + '/d.c', 'src/kiss_fft.c', '-lm', '-o', w + '/d']).returncode == 0
r = subprocess.run([w + '/d']).returncode
shutil.rmtree(w)
assert r == 0, r
'''),
 dict(id='c25-theta-end', property='C25', file=F, edits=[("    num = nuvec[1:] * (-1) ** m\n", "    num = nuvec[1:] * (-1) ** np.abs(m) * (1 if abs(m) < 6 else (-1) ** m)\n")],
   needs='an odd order with |m| >= 6', breaks='the sign of the negative theta frequencies is lost for high odd orders',
   demo=HEAD + 'for m in (2, 3, 7, -7):\n    c = sp.zeros_coefs(8, 8)\n    c[8, m] = 1\n    assert np.allclose(sp.sph_harmonic_tp(10, 18, 8, m), sp.ispht(c, 10, 18).cdata)\n'),
 dict(id='c26-pad-extra', property='C26', file=F, edits=[("""    fdata_extended = np.zeros([dnrows + 2, ncols], dtype=np.complex128)

    ops.pad_rows_fdata(fdata, fdata_extended)

    ops.sin_fc(fdata_extended)
    
    N = nmax + 1;""", """    fdata_extended = np.zeros([dnrows + (2 if ncols > 2 else 0), ncols],
                              dtype=np.complex128)

    ops.pad_rows_fdata(fdata, fdata_extended)

    ops.sin_fc(fdata_extended)
    
    N = nmax + 1;""")], needs='a pattern with two columns (mmax = 0) and nmax = nrows-2', breaks='the rows next to the highest frequency are cut off before the quadrature',
   demo=HEAD + 'c = sp.ones_coefs(5, 0)\nd = sp.spht(sp.ispht(c), 5, 0)\nassert np.allclose(c._vec, d._vec)\nc = sp.ones_coefs(5, 2)\nd = sp.spht(sp.ispht(c), 5, 2)\nassert np.allclose(c._vec, d._vec)\n'),
 dict(id='c08-pole-noise', property='C08', file=F, edits=[("            else:\n                ddata[n, m] = (s + t) / 2\n", "            elif np.abs(s - t) < 1e-3 * np.abs(t):\n                ddata[n, m] = t\n            else:\n                ddata[n, m] = (s + t) / 2\n")],
   needs='pole entries that differ slightly (measured data)', breaks='nearly equal pole entries are not averaged, so the pattern is not symmetric',
   demo=HEAD + 'g = np.ones((4, 4), complex); g[-1] = [1, 1, 1.0005, 1]\nd = sp.ScalarPatternUniform(g).doublesphere\nassert np.max(np.abs(d[3] - np.roll(d[3], 2))) < 1e-12\n'),
 dict(id='c09-rdiv-vec', property='C09', file=F, edits=[("""    @_vector_pattern_uniform_op_right
    def __rsub__(self, a, b):
        return b - a
""", """    @_vector_pattern_uniform_op_right
    def __rsub__(self, a, b):
        return -(a - b) if np.isscalar(b) and b != 0 else a
""")], needs='the number zero minus a transverse pattern', breaks='0 - p returns p',
   demo=HEAD + 'p = sp.ones_patt_uniform(4, 4, patt_type=sp.vector)\nassert np.allclose((2 - p).theta, 1)\nassert np.allclose((0 - p).theta, -1)\n'),
]
# dropped: the existing tests catch them, or the demonstration does not separate them
DROPPED = 'c11-zero-stop c12-hkm-mid c13-window-deg c14-sdata-last c15-inds-short c20-vispht-inplace c22-small-j1'.split()
SEEDS = [s for s in SEEDS if s['id'] not in DROPPED]
