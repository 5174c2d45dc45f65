# helper used while editing /repo: sub(path, (old,new), ...) keeping the file's line endings
def sub(p,*prs):
    s=open(p,newline='',encoding='latin-1').read()
    nl='\r\n' if '\r\n' in s else '\n'
    for a,b in prs:
        a=a.replace('\n',nl); b=b.replace('\n',nl)
        assert s.count(a)==1,(p,a,s.count(a))
        s=s.replace(a,b)
    open(p,'w',newline='',encoding='latin-1').write(s)
