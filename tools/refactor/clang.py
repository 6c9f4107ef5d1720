# C: helpers extracted, loops rewritten, statements reordered (csphi.c, kiss_fft.c)
R=[]
def r(*a): R.append(a)
C='src/csphi.c'; K='src/kiss_fft.c'
r('y_zero',C,"""	for(k=0;k<len;k++)
		*(y + k)=0;

	if(abs(em) <= en){""","""	SFLOAT* end = y + len;
	SFLOAT* p;

	for(p=y; p!=end; ++p)
		*p = 0;

	if(abs(em) <= en){""")
r('y_helper',C,"""			for(k=k-2;k>=0;k-=2){
				(*(y + k))=((B(en,k+1.0)+B(en,k+2.0)-4.0*em*em)*(*(y + k + 2))-B(en,k+3.0)*(*(y + k + 4)))/B(en,k);
			}
""","""			k -= 2;
			while(k >= 0){
				double b1 = B(en,k+1.0);
				double b2 = B(en,k+2.0);
				double b3 = B(en,k+3.0);
				double head = (b1 + b2 - 4.0*em*em)*y[k+2];
				double tail = b3*y[k+4];
				y[k] = (head - tail)/B(en,k);
				k -= 2;
			}
""")
r('sdata2',C,"""	for(k=mm;k<=mm+nn - 1;k++)
		if ((k % 2) == 1)
			s[k-mm].i = -1/((SFLOAT)k);
""","""	for(k=0;k<nn;k++)
	{
		int nu = mm + k;
		if (nu % 2 == 0)
			continue;
		s[k].i = -1.0/nu;
	}
""")
r('sdata3',C,"""	for(k=-mm;k<mm;k++)
		if ((abs(k) % 2) == 1)
			s[Q+k-mm].i = -1/((SFLOAT)k);
""","""	for(k=1;k<=mm;k+=2)
	{
		s[Q-k-mm].i = 1/((SFLOAT)k);
		if(k < mm)
			s[Q+k-mm].i = -1/((SFLOAT)k);
	}
""")
r('hkm_ind',C,"""	if(m>=0)
		ind = m;
	else
		ind = Ncol+m;
""","""	ind = (m + Ncol) % Ncol;
""")
r('hkm_ptr',C,"""	for(k=0;k<mm;k++)
	{
		ff[k] = gcoef[Ncol*(mm+k)+ind];
		ff[mm+k] = gcoef[Ncol*k+ind];
	}
""","""	for(k=0;k<Nrow;k++)
	{
		int row = (k < mm) ? k + mm : k - mm;
		ff[k] = gcoef[row*Ncol + ind];
	}
""")
r('hkm_cols',C,"""	for(k=0;k<mm;k++)
	{
		ff[k] = gcoef[Ncol*(mm+k)+ind];
		ff[mm+k] = gcoef[Ncol*k+ind];
	}
""","""	{
		SCOMPLEX* top = gcoef + ind;
		SCOMPLEX* bottom = gcoef + Ncol*mm + ind;
		for(k=0;k<mm;k++)
		{
			ff[k] = *bottom;
			ff[mm+k] = *top;
			top += Ncol;
			bottom += Ncol;
		}
	}
""")
r('hkm_scale',C,"""	for(k=0; k<len; k++)
	{
		hkm[k].r = 4.0*PI* ff[k].r / (SFLOAT)Q;
		hkm[k].i = 4.0*PI* ff[k].i / (SFLOAT)Q;
	} 
""","""	{
		const SFLOAT scale = 4.0*PI/(SFLOAT)Q;
		for(k=0; k<len; k++)
		{
			hkm[k].r = scale*ff[k].r;
			hkm[k].i = scale*ff[k].i;
		}
	}
""")
r('hkm_mul',C,"""		ffr = ff[k].r;
		ff[k].r = ss[k].r*ff[k].r - ss[k].i*ff[k].i;
		ff[k].i = ss[k].r*ff[k].i + ss[k].i*ffr;
""","""		SCOMPLEX a = ss[k];
		SCOMPLEX b = ff[k];
		ff[k].r = a.r*b.r - a.i*b.i;
		ff[k].i = a.r*b.i + a.i*b.r;
		(void)ffr;
""")
r('mul_helper',C,"""		ffr = ff[k].r;
		ff[k].r = ss[k].r*ff[k].r - ss[k].i*ff[k].i;
		ff[k].i = ss[k].r*ff[k].i + ss[k].i*ffr;
	}
""","""		ffr = ff[k].r;
		ff[k].r = ffr*ss[k].r - ff[k].i*ss[k].i;
		ff[k].i = ffr*ss[k].i + ff[k].i*ss[k].r;
	}
""")
r('bnm_acc',C,"""		vec[n-absm].r = hkm[0].r*y[0];
		vec[n-absm].i = hkm[0].i*y[0];

		for(k = 1;k<n+1;k++)
		{
			//TODO: need to sort before I sum
			vec[n-absm].r += 2.0*hkm[k].r*y[k];
			vec[n-absm].i += 2.0*hkm[k].i*y[k];
		}
""","""		SFLOAT re = 0, im = 0;
		for(k = 1;k<=n;k++)
		{
			re += hkm[k].r*y[k];
			im += hkm[k].i*y[k];
		}
		vec[n-absm].r = hkm[0].r*y[0] + 2.0*re;
		vec[n-absm].i = hkm[0].i*y[0] + 2.0*im;
""")
r('bnm_down',C,"""		for(k = 1;k<n+1;k++)
		{
			//TODO: need to sort before I sum
			vec[n-absm].r += 2.0*hkm[k].r*y[k];
			vec[n-absm].i += 2.0*hkm[k].i*y[k];
		}
""","""		for(k = n;k>0;k--)
		{
			vec[n-absm].r += 2.0*hkm[k].r*y[k];
			vec[n-absm].i += 2.0*hkm[k].i*y[k];
		}
""")
r('bnm_sign',C,"""		if(absm % 2 == 1)
		{
			vecr = vec[n-absm].r;
			vec[n-absm].r = pow(-1.0, (m-1)/2) * vec[n-absm].i;
			vec[n-absm].i = -pow(-1.0, (m-1)/2) * vecr;
		}
		else
		{
			vec[n-absm].r = pow(-1.0, m/2) * vec[n-absm].r;
			vec[n-absm].i = pow(-1.0, m/2) * vec[n-absm].i;
		}
""","""		{
			SCOMPLEX* out = &vec[n-absm];
			if(absm % 2 == 0)
			{
				SFLOAT sgn = ((absm/2) % 2 == 0) ? 1.0 : -1.0;
				out->r *= sgn;
				out->i *= sgn;
			}
			else
			{
				SFLOAT sgn = pow(-1.0, (m-1)/2);
				vecr = out->r;
				out->r = sgn * out->i;
				out->i = -sgn * vecr;
			}
		}
""")
r('fc_index',C,"""	inds[0] = 0;
	for(m=1; m<=Mmax; m++)
	{
		inds[2*m-1] = N;
		N = N + QQ;
		inds[2*m] = N;
		N = N + QQ;
		QQ--;
	}


	//Calculate""","""	for(m=1; m<=Mmax; m++)
	{
		int count = Nmax - m + 1;
		inds[2*m-1] = N;
		inds[2*m] = N + count;
		N += 2*count;
	}

	//Calculate""")
r('fc_noinds',C,"""		pt = sc + inds[2*m-1];
		bnm_fc(fdata, Nrow, Ncol, 
			Nmax, -m,
			pt, Nmax - abs(m) + 1, 
			s, Q, 
			ff, Q, 
			hkm, Nmax+1, 
			y,Nmax+1,
			kiss_cfg_fw,                       
			kiss_cfg_bw);

		pt = sc + inds[2*m];
		bnm_fc(fdata, Nrow, Ncol,
			Nmax, m,
			pt, Nmax - abs(m) + 1,
""","""		int sign;
		for(sign = -1; sign <= 0; sign++)
		{
			pt = sc + inds[2*m+sign];
			if(sign == -1)
				bnm_fc(fdata, Nrow, Ncol, Nmax, -m, pt, Nmax - m + 1, s, Q, ff, Q, hkm, Nmax+1, y, Nmax+1, kiss_cfg_fw, kiss_cfg_bw);
		}
		bnm_fc(fdata, Nrow, Ncol,
			Nmax, m,
			pt, Nmax - m + 1,
""")
r('fc_calloc',C,"""	inds = (int*)malloc((2*Mmax+1)*sizeof(int));
	memset(inds,0,(2*Mmax+1)*sizeof(int));


	//setup indices that index into sc
	inds[0] = 0;
	for(m=1; m<=Mmax; m++)
	{
		inds[2*m-1] = N;
		N = N + QQ;
		inds[2*m] = N;
		N = N + QQ;
		QQ--;
	}


	//Calculate""","""	inds = (int*)calloc(2*Mmax+1, sizeof(int));


	//setup indices that index into sc
	for(m=1; m<=Mmax; m++)
	{
		inds[2*m-1] = N;
		N = N + QQ;
		inds[2*m] = N;
		N = N + QQ;
		QQ--;
	}


	//Calculate""")
r('fc_free',C,"""	free(s);
	free(kiss_cfg_fw);
	free(kiss_cfg_bw);
	free(hkm);
	free(y);
	free(ff);
	free(inds);
""","""	free(inds);
	free(ff);
	free(y);
	free(hkm);
	free(kiss_cfg_bw);
	free(kiss_cfg_fw);
	free(s);
""")
r('fcv_swap',C,"""			pfdata = fdata + k*Ncol + M;
                        tmp = *pfdata;
			tmp.r += vec[n-absm].r*y[k];
                        tmp.i += vec[n-absm].i*y[k];
                        *pfdata = tmp;
""","""			pfdata = &fdata[k*Ncol + M];
			pfdata->r += y[k]*vec[n-absm].r;
			pfdata->i += y[k]*vec[n-absm].i;
""")
r('fcv_n',C,"""		for(k=0;k<K;k++)
		{
			pfdata = fdata + k*Ncol + M;
                        tmp = *pfdata;
			tmp.r""","""		for(k=0;k<=n;k++)
		{
			pfdata = fdata + k*Ncol + M;
                        tmp = *pfdata;
			tmp.r""")
r('fcv_ptr',C,"""	for(k=0;k<K;k++)
	{
		pfdata = fdata + k*Ncol + M;
                tmp = *pfdata;

                //In""","""	for(k=0, pfdata = fdata + M;k<K;k++, pfdata += Ncol)
	{
                tmp = *pfdata;

                //In""")
r('fcv_sym',C,"""	for(k=0;k<H;k++)
	{
		fdata[Ncol*(Nrow-1 - k) + M].r = mm*fdata[Ncol*(k+1)+M].r; 
                fdata[Ncol*(Nrow-1 - k) + M].i = mm*fdata[Ncol*(k+1)+M].i; 
	}
""","""	for(k=1;k<=H;k++)
	{
		SCOMPLEX* src = fdata + Ncol*k + M;
		SCOMPLEX* dst = fdata + Ncol*(Nrow-k) + M;
		dst->r = mm*src->r;
		dst->i = mm*src->i;
	}
""")
r('fcv_H',C,"""	if((Nrow % 2) == 0)
		H = Nrow/2-1;
	else
	        H = (Nrow-1)/2;
""","""	H = (Nrow - 1)/2;
""")
r('sc_loop',C,"""	for(k=0;k<=floor(Ncol/2);k++)
	{
		if(k < Mmax)""","""	for(k=0;k<=Mmax && k<=Ncol/2;k++)
	{
		if(k < Mmax)""")
r('sc_m',C,"""		else if(k == Mmax)
		{
			fcvec_m_sc(sc + inds[2*k],
                                   k,Nmax, 
                                   fdata, Nrow, Ncol,
                                   k, 
                                   y, Nmax+1);
		}
	}
""","""		else
		{
			if(k != Mmax)
				break;
			fcvec_m_sc(sc + inds[2*k], k, Nmax, fdata, Nrow, Ncol, k, y, Nmax+1);
		}
	}
""")
r('k2',K,"""    Fout2 = Fout + m;
    do{
        C_FIXDIV(*Fout,2); C_FIXDIV(*Fout2,2);

        C_MUL (t,  *Fout2 , *tw1);
        tw1 += fstride;
        C_SUB( *Fout2 ,  *Fout , t );
        C_ADDTO( *Fout ,  t );
        ++Fout2;
        ++Fout;
    }while (--m);
""","""    int k;
    Fout2 = Fout + m;
    for (k = 0; k < m; ++k) {
        C_MUL(t, Fout2[k], tw1[k*fstride]);
        C_SUB(Fout2[k], Fout[k], t);
        C_ADDTO(Fout[k], t);
    }
""")
r('k4',K,"""        if(st->inverse) {
            Fout[m].r = scratch[5].r - scratch[4].i;
            Fout[m].i = scratch[5].i + scratch[4].r;
            Fout[m3].r = scratch[5].r + scratch[4].i;
            Fout[m3].i = scratch[5].i - scratch[4].r;
        }else{
            Fout[m].r = scratch[5].r + scratch[4].i;
            Fout[m].i = scratch[5].i - scratch[4].r;
            Fout[m3].r = scratch[5].r - scratch[4].i;
            Fout[m3].i = scratch[5].i + scratch[4].r;
        }
""","""        {
            kiss_fft_scalar sgn = st->inverse ? -1 : 1;
            Fout[m].r = scratch[5].r + sgn*scratch[4].i;
            Fout[m].i = scratch[5].i - sgn*scratch[4].r;
            Fout[m3].r = scratch[5].r - sgn*scratch[4].i;
            Fout[m3].i = scratch[5].i + sgn*scratch[4].r;
        }
""")
r('k4b',K,"""        C_SUB( scratch[5] , *Fout, scratch[1] );
        C_ADDTO(*Fout, scratch[1]);
        C_ADD( scratch[3] , scratch[0] , scratch[2] );
        C_SUB( scratch[4] , scratch[0] , scratch[2] );
        C_SUB( Fout[m2], *Fout, scratch[3] );
        tw1 += fstride;
        tw2 += fstride*2;
        tw3 += fstride*3;
        C_ADDTO( *Fout , scratch[3] );
""","""        tw1 += fstride;
        tw2 += fstride*2;
        tw3 += fstride*3;
        C_ADD( scratch[3] , scratch[0] , scratch[2] );
        C_SUB( scratch[4] , scratch[0] , scratch[2] );
        C_SUB( scratch[5] , *Fout, scratch[1] );
        C_ADDTO(*Fout, scratch[1]);
        C_SUB( Fout[m2], *Fout, scratch[3] );
        C_ADDTO( *Fout , scratch[3] );
""")
r('k5',K,"""        scratch[0] = *Fout0;

        C_MUL(scratch[1] ,*Fout1, tw[u*fstride]);
        C_MUL(scratch[2] ,*Fout2, tw[2*u*fstride]);
        C_MUL(scratch[3] ,*Fout3, tw[3*u*fstride]);
        C_MUL(scratch[4] ,*Fout4, tw[4*u*fstride]);
""","""        const size_t idx = u*fstride;
        scratch[0] = *Fout0;

        C_MUL(scratch[1] ,*Fout1, tw[idx]);
        C_MUL(scratch[2] ,*Fout2, tw[2*idx]);
        C_MUL(scratch[3] ,*Fout3, tw[3*idx]);
        C_MUL(scratch[4] ,*Fout4, tw[4*idx]);
""")
r('kg',K,"""        k=u;
        for ( q1=0 ; q1<p ; ++q1 ) {
            scratch[q1] = Fout[ k  ];
            C_FIXDIV(scratch[q1],p);
            k += m;
        }
""","""        for ( q1=0 ; q1<p ; ++q1 ) {
            scratch[q1] = Fout[u + q1*m];
            C_FIXDIV(scratch[q1],p);
        }
""")
r('kg2',K,"""            int twidx=0;
            Fout[ k ] = scratch[0];
            for (q=1;q<p;++q ) {
                twidx += fstride * k;
                if (twidx>=Norig) twidx-=Norig;
                C_MUL(t,scratch[q] , twiddles[twidx] );
                C_ADDTO( Fout[ k ] ,t);
            }
            k += m;
""","""            int twidx=0;
            kiss_fft_cpx sum = scratch[0];
            for (q=1;q<p;++q ) {
                twidx += fstride * k;
                if (twidx>=Norig) twidx-=Norig;
                C_MUL(t,scratch[q] , twiddles[twidx] );
                C_ADDTO( sum ,t);
            }
            Fout[ k ] = sum;
            k += m;
""")
r('kw',K,"""    if (m==1) {
        do{
            *Fout = *f;
            f += fstride*in_stride;
        }while(++Fout != Fout_end );
    }else{
        do{
            // recursive call:
            // DFT of size m*p performed by doing
            // p instances of smaller DFTs of size m, 
            // each one takes a decimated version of the input
            kf_work( Fout , f, fstride*p, in_stride, factors,st);
            f += fstride*in_stride;
        }while( (Fout += m) != Fout_end );
    }
""","""    if (m==1) {
        int i;
        for (i=0;i<p;++i)
            Fout[i] = f[i*fstride*in_stride];
    }else{
        do{
            kf_work( Fout , f, fstride*p, in_stride, factors,st);
            f += fstride*in_stride;
            Fout += m;
        }while( Fout != Fout_end );
    }
""")
r('kw2',K,"""    Fout=Fout_beg;

    // recombine the p smaller DFTs 
    switch (p) {
        case 2: kf_bfly2(Fout,fstride,st,m); break;
        case 3: kf_bfly3(Fout,fstride,st,m); break; 
        case 4: kf_bfly4(Fout,fstride,st,m); break;
        case 5: kf_bfly5(Fout,fstride,st,m); break; 
        default: kf_bfly_generic(Fout,fstride,st,m,p); break;
    }
}
""","""    Fout=Fout_beg;

    // recombine the p smaller DFTs 
    if (p == 2)
        kf_bfly2(Fout,fstride,st,m);
    else if (p == 3)
        kf_bfly3(Fout,fstride,st,m);
    else if (p == 4)
        kf_bfly4(Fout,fstride,st,m);
    else if (p == 5)
        kf_bfly5(Fout,fstride,st,m);
    else
        kf_bfly_generic(Fout,fstride,st,m,p);
}
""")
r('kf',K,"""            switch (p) {
                case 4: p = 2; break;
                case 2: p = 3; break;
                default: p += 2; break;
            }
            if (p > floor_sqrt)
                p = n;          /* no more factors, skip to end */
""","""            if (p == 4)
                p = 2;
            else if (p == 2)
                p = 3;
            else
                p += 2;
            if (p > floor_sqrt)
                p = n;          /* no more factors, skip to end */
""")
r('kf2',K,"""        n /= p;
        *facbuf++ = p;
        *facbuf++ = n;
    } while (n > 1);
""","""        n /= p;
        facbuf[0] = p;
        facbuf[1] = n;
        facbuf += 2;
    } while (n > 1);
""")
r('ka',K,"""            double phase = -2*pi*i / nfft;
            if (st->inverse)
                phase *= -1;
            kf_cexp(st->twiddles+i, phase );
""","""            double phase = (st->inverse ? 2 : -2)*pi*i / nfft;
            kf_cexp(&st->twiddles[i], phase );
""")
r('ks',K,"""        memcpy(fout,tmpbuf,sizeof(kiss_fft_cpx)*st->nfft);
        KISS""","""        int i;
        for (i=0;i<st->nfft;++i)
            fout[i] = tmpbuf[i];
        KISS""")
