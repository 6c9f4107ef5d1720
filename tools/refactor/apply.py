import sys, subprocess, importlib.util
# usage: apply.py specfile [names]; applies to /tmp/mut
T='/tmp/mut/'
subprocess.check_call(['git','-C',T,'checkout','-q','--','.'])
spec={}
exec(open(sys.argv[1]).read(),spec)
names=sys.argv[2:]
for name,f,old,new in spec['R']:
    if names and name not in names: continue
    b=open(T+f,'rb').read().decode(); crlf='\r\n' in b
    s=b.replace('\r\n','\n')
    assert s.count(old)>=1,(name,'not found')
    i=s.index(old); s=s[:i]+new+s[i+len(old):]
    if crlf: s=s.replace('\n','\r\n')
    open(T+f,'wb').write(s.encode())
