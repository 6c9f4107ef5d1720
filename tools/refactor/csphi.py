R=[]
def r(*a): R.append(a)
C='src/csphi.c'
r('ynnm',C,"""	else{
		ynnm=a;
		for(k=1; k<=n; k++){
			ynnm=sqrt((2.0*k+1)/(8.0*k))*ynnm;
		}
		if(n!=pm){
			for(k=n-1; k>=pm; k--){
				ynnm=sqrt(1.0*(n+k+1.0)/(n-k))*ynnm;
			}
		}
	}
	return ynnm;
""","""	else{
		ynnm=a;
		k = 1;
		while(k <= n){
			ynnm *= sqrt((2.0*k+1.0)/(8.0*k));
			++k;
		}
		for(k=1; k<=n-pm; ++k)
			ynnm *= sqrt((2.0*n-k+1.0)/k);
	}
	return ynnm;
""")
r('ynunm',C,"""	for(k=0;k<len;k++)
		*(y + k)=0;

	if(abs(em) <= en){
		*(y + en) = ynnm(en,em);
		k=en-2;
		if(k >= 0){
			*(y + k) = (B(en,k+1.0)+B(en,k+2.0) - 4.0*em*em)*(*(y + k + 2))/B(en,k);	
			for(k=k-2;k>=0;k-=2){
				(*(y + k))=((B(en,k+1.0)+B(en,k+2.0)-4.0*em*em)*(*(y + k + 2))-B(en,k+3.0)*(*(y + k + 4)))/B(en,k);
			}
		}
	}
""","""	double num;

	memset(y, 0, len*sizeof(SFLOAT));

	if(abs(em) > en)
		return;

	y[en] = ynnm(en,em);
	k = en - 2;
	while(k >= 0){
		num = (B(en,k+1.0)+B(en,k+2.0)-4.0*em*em)*y[k+2];
		if(k < en - 2)
			num -= B(en,k+3.0)*y[k+4];
		y[k] = num/B(en,k);
		k -= 2;
	}
""")
r('SData',C,"""	for(k=mm;k<=mm+nn - 1;k++)
		if ((k % 2) == 1)
			s[k-mm].i = -1/((SFLOAT)k);
	for(k=-mm;k<mm;k++)
		if ((abs(k) % 2) == 1)
			s[Q+k-mm].i = -1/((SFLOAT)k);
""","""	for(k=-mm;k<mm;k++){
		if (k % 2 == 0)
			continue;
		s[Q+k-mm].i = -1.0/k;
	}
	for(k=0;k<nn;k++){
		int nu = mm + k;
		if (nu % 2)
			s[k].i = -1.0/nu;
	}
""")
r('hkm',C,"""	// properly get the index into gcoef that m corresponds to
	if(m>=0)
		ind = m;
	else
		ind = Ncol+m;

	// we assume the number of rows is even
	mm = Nrow / 2;

	for(k=0;k<mm;k++)
	{
		ff[k] = gcoef[Ncol*(mm+k)+ind];
		ff[mm+k] = gcoef[Ncol*k+ind];
	}
""","""	SCOMPLEX* col;

	// properly get the index into gcoef that m corresponds to
	ind = (m >= 0) ? m : Ncol + m;
	col = gcoef + ind;

	// we assume the number of rows is even
	mm = Nrow / 2;

	for(k=0;k<mm;k++)
		ff[mm+k] = col[Ncol*k];
	for(k=mm;k<2*mm;k++)
		ff[k-mm] = col[Ncol*k];
""")
r('hkm2',C,"""		ffr = ff[k].r;
		ff[k].r = ss[k].r*ff[k].r - ss[k].i*ff[k].i;
		ff[k].i = ss[k].r*ff[k].i + ss[k].i*ffr;
""","""		SCOMPLEX z = ff[k];
		ffr = z.r*ss[k].r - z.i*ss[k].i;
		ff[k].i = z.i*ss[k].r + z.r*ss[k].i;
		ff[k].r = ffr;
""")
r('bnm',C,"""		vec[n-absm].r = hkm[0].r*y[0];
		vec[n-absm].i = hkm[0].i*y[0];

		for(k = 1;k<n+1;k++)
		{
			//TODO: need to sort before I sum
			vec[n-absm].r += 2.0*hkm[k].r*y[k];
			vec[n-absm].i += 2.0*hkm[k].i*y[k];
		}

		//In the following: vec[n-absm] = i**(-m) * vec[n-absm] 
		if(absm % 2 == 1)
		{
			vecr = vec[n-absm].r;
			vec[n-absm].r = pow(-1.0, (m-1)/2) * vec[n-absm].i;
			vec[n-absm].i = -pow(-1.0, (m-1)/2) * vecr;
		}
		else
		{
			vec[n-absm].r = pow(-1.0, m/2) * vec[n-absm].r;
			vec[n-absm].i = pow(-1.0, m/2) * vec[n-absm].i;
		}
""","""		SCOMPLEX acc;
		acc.r = hkm[0].r*y[0];
		acc.i = hkm[0].i*y[0];

		for(k = 1;k<=n;k++)
		{
			acc.r += 2.0*hkm[k].r*y[k];
			acc.i += 2.0*hkm[k].i*y[k];
		}

		//In the following: vec[n-absm] = i**(-m) * acc
		vecr = pow(-1.0, (absm % 2 == 1) ? (m-1)/2 : m/2);
		if(absm % 2 == 1)
		{
			vec[n-absm].r = vecr * acc.i;
			vec[n-absm].i = -vecr * acc.r;
		}
		else
		{
			vec[n-absm].r = vecr * acc.r;
			vec[n-absm].i = vecr * acc.i;
		}
""")
r('fcvec',C,"""		for(k=0;k<K;k++)
		{
			pfdata = fdata + k*Ncol + M;
                        tmp = *pfdata;
			tmp.r += vec[n-absm].r*y[k];
                        tmp.i += vec[n-absm].i*y[k];
                        *pfdata = tmp;
		}
""","""		pfdata = fdata + M;
		for(k=0;k<K;k++)
		{
			pfdata->r += vec[n-absm].r*y[k];
			pfdata->i += vec[n-absm].i*y[k];
			pfdata += Ncol;
		}
""")
r('fcvec2',C,"""	mm = pow(-1,m);

	if((Nrow % 2) == 0)
		H = Nrow/2-1;
	else
	        H = (Nrow-1)/2;

	for(k=0;k<H;k++)
	{
		fdata[Ncol*(Nrow-1 - k) + M].r = mm*fdata[Ncol*(k+1)+M].r; 
                fdata[Ncol*(Nrow-1 - k) + M].i = mm*fdata[Ncol*(k+1)+M].i; 
	}
""","""	mm = (absm % 2 == 0) ? 1 : -1;
	H = (Nrow - 1)/2;

	for(k=1;k<=H;k++)
	{
		SCOMPLEX* dst = fdata + Ncol*(Nrow - k) + M;
		tmp = fdata[Ncol*k + M];
		dst->r = mm*tmp.r;
		dst->i = mm*tmp.i;
	}
""")
r('sc_to_fc',C,"""	for(k=0;k<=floor(Ncol/2);k++)
	{
		if(k < Mmax)
		{
""","""	for(k=0;k<=Ncol/2 && k<=Mmax;k++)
	{
		if(k != Mmax)
		{
""")
r('inds',C,"""	inds[0] = 0;
	for(m=1; m<=Mmax; m++)
	{
		inds[2*m-1] = N;
		N = N + QQ;
		inds[2*m] = N;
		N = N + QQ;
		QQ--;
	}


	//Calculate each of the bnm coefficients
""","""	fill_inds(inds, Nmax, Mmax);

	//Calculate each of the bnm coefficients
""")
r('inds2',C,"""	inds[0] = 0;
	for(m=1; m<=Mmax; m++)
	{
		inds[2*m-1] = N;
		N = N + QQ;
		inds[2*m] = N;
		N = N + QQ;
		QQ--;
	}


	for(k=0""","""	fill_inds(inds, Nmax, Mmax);

	for(k=0""")
r('inds3',C,"""double ynnm(int n, int m)
{
""","""static void fill_inds(int* inds, int Nmax, int Mmax)
{
	int m;
	int pos = Nmax + 1;

	inds[0] = 0;
	for(m=1; m<=Mmax; m++)
	{
		int len = Nmax - m + 1;
		inds[2*m-1] = pos;
		inds[2*m] = pos + len;
		pos += 2*len;
	}
}

double ynnm(int n, int m)
{
""")
r('findq',C,"""	int A;
	int Q = S;

	A = Q;
	while(A != 1)
	{
		if( A % 2 == 0)
			A = A/2;
		else if( A % 3 == 0)
			A = A/3;
		else if( A % 5 == 0)
			A = A/5;
		else
		{
			A=Q+1;
			Q=A;
		}
	}

	return Q;
""","""	int Q;

	for(Q = S; ; Q++)
	{
		int A = Q;
		while(A % 2 == 0) A /= 2;
		while(A % 3 == 0) A /= 3;
		while(A % 5 == 0) A /= 5;
		if(A == 1)
			return Q;
	}
""")
