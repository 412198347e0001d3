H=lambda f,v: [('f',f),('x',': '),('v',v),('x','\\r\\n')]
END=[('x','\\r'),('H','\\n')]
def req(m,u,mj,mn,hs,body=[('C','')],keep=2,up=0,pre=''):
    g=[]
    if pre: g.append(('x',pre))
    g+=[('x',m+' '),('u',u),('x',' HTTP/'),('m',mj),('x','.'),('n',mn),('L','\\r\\n')]
    for h in hs: g+=h
    g+=END+body
    return (1,g,keep,up,'HTTP_'+m.replace('-',''))
def res(mj,mn,st,reason,hs,body=[('C','')],keep=2):
    g=[('x','HTTP/'),('m',mj),('x','.'),('n',mn),('x',' '),('s',st),('L',reason+'\\r\\n')]
    for h in hs: g+=h
    return (0,g+END+body,keep,0,'0')
T='\\2'; V='\\3'; U='\\1'; B='\\4'; D='\\5'
def b(n): return [('b',B*n),('C','')]
def chunks(*l):
    g=[]
    for size,n in l: g+=[('x',size),('b',B*n),('x','\\r\\n')]
    return g
ms=['DELETE','GET','HEAD','POST','PUT','CONNECT','OPTIONS','TRACE','COPY','LOCK','MKCOL','MOVE','PROPFIND','PROPPATCH','UNLOCK','REPORT','MKACTIVITY','CHECKOUT','MERGE','M-SEARCH','NOTIFY','SUBSCRIBE','UNSUBSCRIBE','PATCH']
S={}
S[1]=[req(m,'*' if i%2 else '/'+U,'1','1',[],up=1 if m=='CONNECT' else 0) for i,m in enumerate(ms) if i<12 and m!='CONNECT']
S[2]=[req(m,'/','1','0',[]) for i,m in enumerate(ms) if i>=12]+[req('CONNECT','h'+'9:80','1','1',[],up=1)]
S[3]=[req('GET','/a'+U+'?b='+U+'#'+U,'1',D,[H(T+T,'a'+V+'b'),H('Content-Length','3')],b(3)),
      req('PUT','/'+U,D.replace('\\5','1'),'1',[H('cOnTeNt-LENGTH','012')],b(12),keep=1),
      req('POST','http://h.9/'+U+'?','1','1',[H('A',''),H('Content-Length','0'),H('B',V)],keep=1,pre='\\r\\n')]
S[4]=[req('POST','/','1','1',[H('Transfer-Encoding','chunked')],chunks(('3\\r\\n',3),('00a;'+V+'\\r\\n',10))+[('x','0\\r\\n'),('f','X'+T),('x',': '),('v',V),('x','\\r\\n\\r'),('C','\\n')],keep=1),
      req('POST','/','1','1',[H('TRANSFER-encoding','Chunked'),H('Content-Length','7')],chunks(('1\\r\\n',1),('B\\r\\n',11))+[('x','0\\r\\n\\r'),('C','\\n')]),
      req('GET','/','1','1',[H('Upgrade','w'),H('Connection','Upgrade')],up=1)]
S[5]=[req('GET','/','1','0',[],keep=0),req('GET','/','1','1',[],keep=1),req('GET','/','1','0',[H('Connection','Keep-Alive')],keep=1),req('GET','/','1','1',[H('connection','close')],keep=0),
      req('GET','/','1','1',[H('Connection','closed'),H('Content-Lengtx','5')],keep=1),req('GET','/','1','0',[H('Connection','keep-alivex')],keep=0)]
S[6]=[req('GET','/','1','1',[H('X-Connection','close'),H('Content-Length2','5')],keep=1),req('GET','/','1','1',[H('Connectio','close'),H('Transfer-Encodin','chunked')],keep=1),
      req('GET','/','1','1',[H('Transfer-Encoding','chunke'),H('Connections','close')],keep=1),req('GET','/','1','1',[H('Transfer-Encoding','chunkedx'),H('Content-Len','3')],keep=1)]
S[7]=[res('1','1','2'+D+D,' O'+V,[H('Content-Length','2')],b(2),keep=1),res('1','0','404',' N'+V,[H(T,V)],[('b',B*4)],keep=0),res('1','1','304','',[],keep=1),
      res('1','1','200',' OK',[H('Transfer-Encoding','chunked')],chunks(('2\\r\\n',2),('f\\r\\n',15))+[('x','0\\r\\n\\r'),('C','\\n')])]
S[8]=[(1,[('x','GET '),('u','/a'+U),('L','\\n'),('f','A'+T),('x',':'),('v','b'+V),('x','\\n'),('f','C'),('x',': '),('v','d'),('x','\\n'),('H','\\n'),('C','')],0,0,'HTTP_GET'),
      (1,[('x','POST '),('u','/?'+U),('x','  HTTP/'),('m','1'),('x','.'),('n','1'),('L','\\n'),('f','Content-Length'),('x',':\\t'),('v','1'),('x','\\n'),('H','\\n'),('b',B),('C','')],1,0,'HTTP_POST'),
      req('GET','/','1','1',[H('Content-Length','1'),H('Connection',' close'.strip()),[('f','X'),('x',': '),('v','a'),('x','\\r\\n '),('v',V),('x','\\r\\n')]],b(1),keep=0)]
out='/* generated by hand-written tables; see c25_frame.c for the notation */\n'
for k in S:
    out+='#if MSET == %d\n#define MSGS \\\n'%k
    for r,g,keep,up,meth in S[k]:
        def lit(t):
            # a hex-digit after an octal escape would be read as part of it
            import re
            return '"'+re.sub(r'\\([1-6])', lambda m: '\\00'+m.group(1), t)+'"'
        out+='    { %d, { %s }, %d, %d, %s }, \\\n'%(r,', '.join("{ '%s', %s }"%(a,lit(t)) for a,t in [(a, t.replace('\\3','\\6',1) if a=='v' and t.startswith('\\3') else t) for a,t in g]),keep,up,meth)
        assert len(g)<34,len(g)
    out+='\n#endif\n'
open('/verif/harness/c25_msgs.h','w').write(out)
