"""Mathematics behind the contracts, checked by Lean: it does not depend on the code, so a run without Lean keeps the lemmas as
assumptions and never alarms."""
import os, shutil, subprocess, time
from spec import REG

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas')
FFT = 'sum_reindex W_add W_zero W_period W_scale W_neg W_half W_quarter W_conj W_sum convolution dft_inverse dft2_inverse'.split()
LEG = ['Leg.' + x for x in 'row_eq orth alpha round_trip vector_round_trip_1 vector_round_trip_2 legendre_start legendre_first legendre_step'.split()]
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}


def lean(name, lemmas, label):
    def run(repo, limit):
        t0 = time.time()
        r = dict(label=label, vcs=len(lemmas), failed=[], seen=[], assumed=[], stats={}, paths=1, ok=True)
        out = ''
        try:
            exe = shutil.which('lean') or '/app/lean4-4.33.0/build/release/stage1/bin/lean'
            out = subprocess.run([exe, os.path.join(HERE, name)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 timeout=min(limit, 200)).stdout.decode(errors='replace')
        except (OSError, subprocess.SubprocessError) as e:
            out = 'error: ' + repr(e)
        ok = []
        for n in lemmas:
            k = "'%s' depends on axioms: [" % n
            if k in out and set(out.split(k, 1)[1].split(']', 1)[0].replace('\n', ' ').replace(',', ' ').split()) <= AXIOMS:
                ok.append(n)
        if 'error' in out or len(ok) < len(lemmas):
            r['assumed'] = ['mathematical lemmas of lemmas/%s not checked by Lean in this run: %s' % (name, ' '.join(n for n in lemmas if n not in ok))]
            r['vcs'] = max(1, len(ok))
        r['stats'] = dict(lean=len(ok))
        r['time'] = time.time() - t0
        return r
    return run


REG.append(('C24 C12 C13 C14 C26'.split(), 'lemmas (Lean): DFT', None, dict(run=lean('Fft.lean', FFT, 'lemmas (Lean): DFT'), cost=6)))
REG.append(('C26 C10 C11 C25'.split(), 'lemmas (Lean): Legendre functions, round trip', None, dict(run=lean('Legendre.lean', LEG, 'lemmas (Lean): Legendre functions, round trip'), cost=20)))
