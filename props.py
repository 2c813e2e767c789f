COMMON_ASSUMPTIONS = ['clang 18 -O0 translates the C sources faithfully to LLVM IR; x86-64, little endian',
  'malloc/realloc/calloc return fresh disjoint blocks or NULL (every subset of failures where a harness says so); requests over 64 MB fail',
  'the C library functions used are replaced by straightforward C models (harness/vp_libc.c); system calls by the stand-ins of each harness',
  'uninitialised memory reads yield arbitrary values']
J = {}
def job(p, name, src, **kw): J.setdefault(p, []).append(dict(name=name, src=src, **kw))
def jobs(p, tier): return [j for j in J[p] if j.get('tier', 'quick') == 'quick' or tier == 'thorough']
def info(p):
  import meta
  q = meta.P.get(p, {})
  return dict(bounds=q.get('bounds', ''), outside=q.get('outside', ''), assumptions=q.get('assume', []))
for bi,sz,pre,k in ((1,3,0,4),(2,1,0,4),(3,8,2,3),(0,1000,3,2),(0,2048,1,2),(0,5000,0,2),(0,4096,0,2),(7,2,6,3)):
  job('C01','hist_b%d_s%d_p%d'%(bi,sz,pre),'sblist_hist.c',D=dict(BI=bi,SZ=sz,PRE=pre,K=k))
job('C01','hist_dyn','sblist_hist.c',D=dict(BI=2,SZ=4,PRE=1,K=3,DYN=1))
for m in (0,1,2): job('C01','misc%d'%m,'sblist_misc.c',D=dict(MODE=m,SZ=3,NS=4))
job('C01','fromdata5000','sblist_misc.c',D=dict(MODE=0,SZ=1,NS=4))
for k in (0,1,2):
  job('C03','sorted%d'%k,'sorted.c',D=dict(KIND=k,N=6)); job('C03','build%d'%k,'sorted_build.c',D=dict(KIND=k,N=4))
for t in range(9): job('C02','oom%d'%t,'oom.c',D=dict(T=t,K={0:4,1:4,2:6,3:5,4:4,5:4,6:5,7:4,8:1}[t]))
for t in (4,5): job('C02','oom%d_tgi'%t,'oom.c',D=dict(T=t,K=4,TGI=1))
for k in (0,1,2):
  job('C04','hist%d'%k,'tglist_hist.c',D=dict(KIND=k,PRE=0,K=4)); job('C04','hist%d_grow'%k,'tglist_hist.c',D=dict(KIND=k,PRE=3,K=3)); job('C04','hist%d_grow2'%k,'tglist_hist.c',D=dict(KIND=k,PRE=7,K=2))
for k in (0,1): job('C04','ptr%d'%k,'tglist_ptr.c',D=dict(KIND=k))
for k in (0,1):
  job('C05','hist%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=0,K=4,NB=1)); job('C05','grow%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=3,K=2,NB=1))
for k in (0,1): job('C05','own%d'%k,'bmap_own.c',D=dict(KIND=k,N=3))
for k in (2,3):
  job('C06','own%d'%k,'bmap_own.c',D=dict(KIND=k,N=3))
  job('C06','hist%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=0,K=3,NB=3,HT='0xfffffffeu,6')); job('C06','hash%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=2,K=2,NB=4,HT='2654435761u,7'))
  job('C06','onebucket%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=0,K=3,NB=1,HASHC=7)); job('C06','consthash%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=0,K=3,NB=3,HASHC='0xffffffffu'))
for i,pp in enumerate(('0','i','i/2','(i*5)%(i+1)')): job('C07','hist_%d'%i,'tlist_hist.c',D=dict(SZ=3,PRE=4,K=2,PREPOS=pp))
job('C07','hist0','tlist_hist.c',D=dict(SZ=4,PRE=0,K=4,PREPOS=0)); job('C07','deep','tlist_deep.c')

job('C08','hist1','hashlist_hist.c',D=dict(N=4,NB=1,OOMB=0)); job('C08','hist4','hashlist_hist.c',D=dict(N=4,NB=4,OOMB=0))
job('C08','hist3','hashlist_hist.c',D=dict(N=3,NB=3,OOMB=0,NDH='vp_u8')); job('C08','oom','hashlist_hist.c',D=dict(N=3,NB=4,OOMB=1))
for e,s,pre,k in ((8,4,0,4),(8,3,8,3),(4,4,0,4),(4,2,4,4),(16,2,16,3),(64,1,0,3),(64,1,64,2),(128,1,1,2)): job('C09','pool%d_%d_p%d'%(e,s,pre),'pool.c',D=dict(MAXE=e,ES=s,PRE=pre,K=k))
job('C10','guard','guard.c')
for m in (0,1): job('C11','bits%d'%m,'bits.c',D=dict(MODE=m))
for m in range(6): job('C12','ops%d'%m,'sp_ops.c',D=dict(MODE=m,LEN=9))
job('C13','splitc','sp_split.c',D=dict(MODE=0,LMIN=0,LEN=8)); job('C13','splits','sp_split.c',D=dict(MODE=1,LMIN=0,LEN=8,DMIN=0,DLEN=3)); job('C13','replace','sp_split.c',D=dict(MODE=2,LMIN=0,LEN=7,DMIN=0,DLEN=3))
job('C13','splitc_grow','sp_split.c',D=dict(MODE=0,LMIN=19,LEN=19,FORCE=15)); job('C13','splits_grow','sp_split.c',D=dict(MODE=1,LMIN=19,LEN=19,DMIN=1,DLEN=1,FORCE=15)); job('C13','replace_grow','sp_split.c',D=dict(MODE=2,LMIN=18,LEN=18,DMIN=1,DLEN=1,FORCE=15))
job('C14','find','sp_find.c',D=dict(MODE=0,K=4)); job('C14','own','sp_find.c',D=dict(MODE=1,K=3),flags=['-D_GNU_SOURCE'])
M=['*']
job('C15','enc','b64.c',D=dict(MODE=0,N=9),merge=M); job('C15','dec','b64.c',D=dict(MODE=1,L=9,DL=8),merge=M); job('C15','encstr','b64.c',D=dict(MODE=2,L=7,DL=13),merge=M)
for m in (0,1,2): job('C16','hex%d'%m,'hexh.c',D=dict(MODE=m,N=9 if m<2 else 5),merge=M+['hexval'])
for m in range(4): job('C17','dec%d'%m,'num.c',D=dict(MODE=m))
for b,n in ((2,10),(8,6),(10,6),(16,8),(36,5),(62,5)): job('C17','base%d'%b,'num.c',D=dict(MODE=4,BASE=b,ND=n))
job('C17','limits','num.c',D=dict(MODE=5))
job('C18','int','strnum.c',D=dict(BITS=32,ND=10)); job('C18','int64','strnum.c',D=dict(BITS=64,ND=19))
job('C19','one','fmt.c',D=dict(MODE=0,K=1,LIM=20,WMAX=4)); job('C19','two','fmt.c',D=dict(MODE=0,K=2,LIM=2,WMAX=3)); job('C19','three','fmt.c',D=dict(MODE=0,K=3,LIM=1,WMAX=1,KINDS='LIT,PCT,CH,STR,D,XX,LU,P'))
job('C19','small','fmt.c',D=dict(MODE=1,K=2,LIM=2,WMAX=1)); job('C19','bad','fmt.c',D=dict(MODE=2,K=1,LIM=1)); job('C19','api','fmt.c',D=dict(MODE=3,K=2,LIM=2,WMAX=1))
job('C20','parse','ipv4.c',D=dict(MODE=0)); job('C20','format','ipv4.c',D=dict(MODE=1,RT=0)); job('C20','pred','ipv4.c',D=dict(MODE=2,L=8)); job('C20','any','ipv4.c',D=dict(MODE=3,L=8)); job('C20','near','ipv4.c',D=dict(MODE=4)); job('C20','roundtrip','ipv4.c',D=dict(MODE=1,RT=1))
for m,n in ((0,'uc'),(1,'star'),(2,'word')): job('C21',n,'strfn.c',D=dict(MODE=m,HL=5,NL=2),merge=M)
job('C21','uc_long','strfn.c',D=dict(MODE=0,HL=6,NL=4,ALPHA='"aAb"',NALPHA='"AB"')); job('C21','star_long','strfn.c',D=dict(MODE=1,HL=7,NL=4,ALPHA='"ab"',NALPHA='"ab*"')); job('C21','word_long','strfn.c',D=dict(MODE=2,HL=7,NL=3,ALPHA='"aB ;"',NALPHA='"AB"'))
job('C21','ends','strfn.c',D=dict(MODE=3,L=5)); job('C21','dup','strfn.c',D=dict(MODE=4,L=6)); job('C21','class','strfn.c',D=dict(MODE=5))

job('C22','cstr','path.c',D=dict(MODE=0,GEN=0,LMIN=0,L=8)); job('C22','sp','path.c',D=dict(MODE=1,GEN=0,LMIN=0,L=8))
job('C22','cstr_comp','path.c',D=dict(MODE=0,GEN=1,L=5)); job('C22','sp_comp','path.c',D=dict(MODE=1,GEN=1,L=5)); job('C22','sp_long','path.c',D=dict(MODE=2,LMIN=4094,L=4098))
job('C23','diff','path.c',D=dict(MODE=3,LA=4,LB=5)); job('C23','parts','path.c',D=dict(MODE=4,L=6))
job('C23','mkdtemp','tmpdir.c',D=dict(MODE=0,L=8)); job('C23','mktempdir','tmpdir.c',D=dict(MODE=1)); job('C23','stat','tmpdir.c',D=dict(MODE=2)); job('C23','exist','tmpdir.c',D=dict(MODE=3,NEX=40))
job('C24','pattern','filelist.c',D=dict(MODE=0,LD=3,LM=2)); job('C24','list','filelist.c',D=dict(MODE=1,NN=2,OOM=0)); job('C24','oom','filelist.c',D=dict(MODE=1,NN=2,OOM=1)); job('C24','long','filelist.c',D=dict(MODE=2,LMIN=4088,LMAX=4096)); job('C24','escaped','filelist.c',D=dict(MODE=2,LMIN=2040,LMAX=2050))
job('C25','userbuf','fparse.c',D=dict(ERR=0,MEASURE=0,L=5,BUF=3)); job('C25','high','fparse.c',D=dict(HIGH=1,ERR=0,MEASURE=0,L=4,BUF=3)); job('C25','high_long','fparse.c',D=dict(HIGH=1,LONG=1,ERR=0,MEASURE=1)); job('C25','own','fparse.c',D=dict(ERR=0,MEASURE=1,L=6,BUF=3)); job('C25','long','fparse.c',D=dict(LONG=1,ERR=0,MEASURE=1)); job('C25','errors','fparse.c',D=dict(ERR=1,MEASURE=0,L=6,BUF=4))
job('C26','read','fileio.c',D=dict(MODE=0,L=5)); job('C26','write','fileio.c',D=dict(MODE=1,L=6)); job('C26','listwrite','fileio.c',D=dict(MODE=2,L=8)); job('C26','listread','fileio.c',D=dict(MODE=3,L=5,OOM=0)); job('C26','listread_oom','fileio.c',D=dict(MODE=3,L=4,OOM=1)); job('C26','longline','fileio.c',D=dict(MODE=4)); job('C26','chunks','fileio.c',D=dict(MODE=5))
job('C27','sections','ini.c',D=dict(MODE=0,NL=3,LL=4,KL=2)); job('C27','values','ini.c',D=dict(MODE=1,NL=2,LL=4,KL=2)); job('C27','count','ini.c',D=dict(MODE=2,NL=2,LL=5,KL=0))
job('C28','get','opt.c',D=dict(MODE=0,NA=2,L=5,KL=2)); job('C28','flag','opt.c',D=dict(MODE=1,NA=2,L=5,KL=3)); job('C28','printall','opt.c',D=dict(MODE=2,NA=3,L=3)); job('C28','combined','opt.c',D=dict(MODE=3,NA=0,L=1,KL=1))
job('C33','sleep','timeh.c',D=dict(MODE=0)); job('C33','clock','timeh.c',D=dict(MODE=1)); job('C33','diff','timeh.c',D=dict(MODE=2)); job('C33','stamp','timeh.c',D=dict(MODE=3)); job('C33','interrupts','timeh.c',D=dict(MODE=4))
job('C36','lines','stdinline.c',D=dict(L=6))
job('C34','text','logh.c',D=dict(MODE=0,K=1)); job('C34','number','logh.c',D=dict(MODE=1,K=1)); job('C34','put1','logh.c',D=dict(MODE=2,K=1)); job('C34','put2','logh.c',D=dict(MODE=2,K=2,ND='"99"')); job('C34','put3','logh.c',D=dict(MODE=2,K=3,ND='"9"')); job('C34','extreme','logh.c',D=dict(MODE=3,K=1)); job('C34','timestamp','logh.c',D=dict(MODE=4,K=1))
job('C35','spawn','proc.c',D=dict(MODE=0)); job('C35','daemon','proc.c',D=dict(MODE=2)); job('C35','interrupts','proc.c',D=dict(MODE=0,NINT=40))
for _n in (300,1100,5000,70000): job('C35','daemon%d'%_n,'proc.c',D=dict(MODE=2,NFD=_n),steps=100000000)
for k in (0,1): job('C29','state%d'%k,'crc.c',D=dict(MODE=0,CAST=k,NMIN=0,N=4),merge=M); job('C29','pieces%d'%k,'crc.c',D=dict(MODE=1,CAST=k,N=5),merge=M)
job('C30','pieces','md5h.c',D=dict(MODE=0,LENS='{0,1,55,56,63,64,65,119,120,128,130}',CUTS='{0,1,63,64,65}')); job('C30','anywhere','md5h.c',D=dict(MODE=1,LENS='{0,1,8,64,70}',CUTS='{0,8}',REST='{0,1,55,56,63}')); job('C30','rest','md5h.c',D=dict(MODE=1,LENS='{0,3,64}',CUTS='{0}',REST='{'+','.join(map(str,range(64)))+'}')); job('C30','lens','md5h.c',D=dict(MODE=0,LENS='{'+','.join(map(str,range(2,200)))+'}',CUTS='{0}')); job('C30','str','md5h.c',D=dict(MODE=2,LENS='{0,1,56,64}'))
job('C31','pieces','sha512h.c',D=dict(MODE=0,LENS='{0,1,111,112,127,128,129,239,240,256,257}',CUTS='{0,1,127,128,129}'),eflags=['-linmax','2000'])
job('C31','rest','sha512h.c',D=dict(MODE=1,LENS='{0,3}',CUTS='{0}',REST='{2,3,5,8,9,56,63,64,65,72,80,96,100,104,105,108,109,110,113,114,115,116,117,118,119,120,121,122,123,124,125,126}'),eflags=['-linmax','2000'])
job('C31','anywhere','sha512h.c',D=dict(MODE=1,LENS='{0,1,16,17,128,129}',CUTS='{0,16}',REST='{0,1,111,112,127}'),eflags=['-linmax','2000'])
job('C32','text','rc4h.c',D=dict(MODE=0,KLS='{1,2,3,5,7,8,16,31,32,33,64,100,127,128,129,200,254,255,256}',N=70)); job('C32','key','rc4h.c',D=dict(MODE=1,KLS='{256}',NSYM=3,N=5))
job('C37','stringlist','wrappers.c',D=dict(MODE=0,K=3,OOM=0)); job('C37','stringlist_oom','wrappers.c',D=dict(MODE=0,K=3,OOM=1)); job('C37','sptrlist','wrappers.c',D=dict(MODE=1,N=4))
job('C38','stdio','stdior.c',D=dict(L=4)); job('C38','long','stdior.c',D=dict(L=4,LENS='30,31,32,33,62,63,64,65,127,128,255,256,257,511,1023,1024,2047,2048,4000,4085',OUTMAX=4200)); job('C21','switch','strsw.c')

# long histories: operations and positions of fixed pseudo-random scripts, symbolic data
L=dict(steps=60000000)
for i,(bi,sz,pk,st) in enumerate(((0,2,70,260),(1,3,40,200),(16,8,140,420),(0,300,40,160),(64,1,270,700),(0,4,300,700))): job('C01','long%d'%i,'sblist_long.c',D=dict(BI=bi,SZ=sz,PEAK=pk,STEPS=st,SEED=i),**L)
for k in (0,1,2): job('C04','long%d'%k,'tglist_long.c',D=dict(KIND=k,PEAK=(280,140,70)[k],STEPS=(700,420,300)[k],SEED=k),**L)
for k in (0,1): job('C05','long%d'%k,'bmap_long.c',D=dict(KIND=k,PEAK=140,STEPS=420,SEED=k,HASHF='0'),**L)
for k in (2,3):
  job('C06','long%d'%k,'bmap_long.c',D=dict(KIND=k,PEAK=60,STEPS=240,SEED=k,NB=7,HASHF='k*2654435761u'),**L); job('C06','long_wide%d'%k,'bmap_long.c',D=dict(KIND=k,PEAK=40,STEPS=200,SEED=k+2,NB=300,HASHF='k^k>>7'),**L)
for m in (0,1,2): job('C07','long%d'%m,'tlist_long.c',D=dict(MODE=m,PEAK=(280,140,140)[m],STEPS=(700,420,420)[m],SEED=m),**L)
for nb,st in ((1,140),(16,300),(100,300)): job('C08','long%d'%nb,'hashlist_long.c',D=dict(NB=nb,STEPS=st),**L)
for k in (0,1,2):
  for a,b in ((7,10),(15,17)): job('C03','sorted%d_%d'%(k,a),'sorted.c',D=dict(KIND=k,NMIN=a,N=b),passes='function(mem2reg)')
  job('C03','sorted%d_31'%k,'sorted.c',tier='thorough',D=dict(KIND=k,NMIN=31,N=33),passes='function(mem2reg)')
  job('C03','given%d'%k,'sorted.c',D=dict(KIND=k,NMIN=60,N=66,SIMPLE=1,KEYI='(i*3+5)'),passes='function(mem2reg)'); job('C03','givendup%d'%k,'sorted.c',D=dict(KIND=k,NMIN=31,N=33,SIMPLE=1,KEYI='(i/5*3+5)'),passes='function(mem2reg)')
for bi,sz,pre,k in ((0,2,33,1),(8,2,40,1),(16,1,64,1)): job('C01','hist_b%d_s%d_p%d'%(bi,sz,pre),'sblist_hist.c',D=dict(BI=bi,SZ=sz,PRE=pre,K=k))
for k in (0,1,2): job('C04','hist%d_many'%k,'tglist_hist.c',D=dict(KIND=k,PRE=32,K=1))
for k in (0,1): job('C05','many%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=33,K=1,NB=1,PREKEY='(i<PRE?i*7+3:NDKEY())'),passes='function(mem2reg)')
for k in (2,3): job('C06','many%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=24,K=1,NB=3,HT='7,9',PREKEY='(i<PRE?i*7+3:NDKEY())'),passes='function(mem2reg)')
job('C07','hist_many','tlist_hist.c',D=dict(SZ=2,PRE=40,K=1,PREPOS='(i*7)%(i+1)'))
for t,al in ((0,12),(1,10),(2,16),(3,18),(4,40),(5,70),(6,30),(7,70),(8,70),(10,12)): job('C02','long%d'%t,'oom_long.c',D=dict(T=t,BI=(5,0)[t==7],PEAK=60,STEPS=150,NSEEDS=2,SEED=t,ALLOCS=al),**L)
for t in (3,4): job('C02','long%d_tgi'%t,'oom_long.c',D=dict(T=t,PEAK=40,STEPS=100,NSEEDS=2,SEED=t,ALLOCS=40,TGI=1),**L)
LN=dict(LENS='15,16,17,31,32,33,63,64,65,100,255,256,257',LMAX=257)
for m in (0,1,2,3): job('C12','long%d'%m,'sp_ops.c',D=dict(MODE=m,LEN=9,**LN) if m != 2 else dict(MODE=m,LEN=9,LENS='16,17,33',LMAX=64),**L)
for m in (0,1,2): job('C15','long%d'%m,'b64.c',D=dict(MODE=m,LENS=('12,15,16,17,24,31,32,33,47,48,49,57,63,64,65,76,100,256','12,16,20,21,24,32,64,68,76,80,100','12,16,31,32,33,57,64,100')[m]),merge=M,**L)
for m in (0,1): job('C16','long%d'%m,'hexh.c',D=dict(MODE=m,LENS='15,16,17,31,32,33,64,100,128,200,256'),merge=M+['hexval'],**L)
for i,de in enumerate((3,9,40)): job('C13','long%d'%i,'sp_split_long.c',D=dict(LENS='17,40,64,129,256,300,520',LMAX=520,DENSE=de,SEED=i,NSEEDS=3,DELIMS='",","aa","aab","abcab","x=y"'),flags=['-DX'],**L)
for b,n in ((2,64),(4,32),(8,21),(16,16),(32,12)): job('C17','full%d'%b,'num.c',D=dict(MODE=4,BASE=b,ND=n,FLAGS='vp_choose(4)'))
for b,n in ((16,16),(32,12),(36,12),(10,13)): job('C17','few%d'%b,'num.c',D=dict(MODE=4,BASE=b,ND=n,FEW=1))
for b,n in ((6,6),(12,6),(20,6),(26,5),(34,5),(38,5),(52,5),(60,5)): job('C17','base%d'%b,'num.c',D=dict(MODE=4,BASE=b,ND=n))
for b in (4,14,18,22,24,28,30,40,42,44,46,48,50,54,56,58): job('C17','base%d'%b,'num.c',D=dict(MODE=4,BASE=b,ND=4))
for b,n in ((10,12),(36,9),(62,8)): job('C17','wide%d'%b,'num.c',D=dict(MODE=4,BASE=b,ND=n))
for i in range(4): job('C19','script%d'%i,'fmt.c',D=dict(MODE=4,SCRIPT=1,K=(12,10,12,8)[i],LIM=(3,20,8,20)[i],WMAX=4,SEED=i,NSEEDS=8),**L)
SL='20,40,70,130,200'
job('C21','longuc','strfn_long.c',D=dict(MODE=0,LENS=SL,NSYM=2,FILL='" 1x"',NEEDLES='"AAB","ABABAC","A1B A1B C","THE QUICK BROWN","X"'),merge=M,**L)
job('C21','longstar','strfn_long.c',D=dict(MODE=1,LENS=SL,NSYM=2,FILL='" 1x"',NEEDLES='"aab","ab*bac","*","a**b","**ab*ab*c"'),merge=M,**L)
job('C21','longword','strfn_long.c',D=dict(MODE=2,LENS=SL,NSYM=2,FILL='" ;.x"',NEEDLES='"AAB","ABABAC","X","WORD","THE QUICK"'),merge=M,**L)
job('C21','longends','strfn.c',D=dict(MODE=3,L=5,EQL='7,12,31,64'),merge=M,**L)
job('C21','longdup','strfn.c',D=dict(MODE=4,L=6,LENS='15,16,17,31,32,63,64,100,255,256,257',LMAX=257),**L)
job('C14','long','sp_find_long.c',D=dict(MODE=0,PEAK=50,STEPS=24,NSEEDS=8),**L); job('C14','longown','sp_find_long.c',D=dict(MODE=1,PEAK=40,NSEEDS=4),**L)
job('C22','long','path_long.c',D=dict(MODE=0,LENS='60,120,260,600,1500,4000',NSEEDS=6,NSYM=4),**L)
job('C23','longdiff','path_long.c',D=dict(MODE=1,LENS='60,120,300',NSEEDS=6,NSYM=2),**L); job('C23','longparts','path_long.c',D=dict(MODE=2,LENS='60,300,1000',NSEEDS=6,NSYM=3),**L)
job('C26','longfile','fileio_long.c',D=dict(MODE=0,LENS='1,2,255,4095,4096,4097,65535,65536,65537,100000,196609',NSEEDS=1),**L); job('C26','longlist','fileio_long.c',D=dict(MODE=1,LENS='1',PEAK=40,NSEEDS=4),**L)
job('C25','longfile','fparse_long.c',D=dict(BIG=0,PEAK=30,NSEEDS=8),**L); job('C25','longlines','fparse_long.c',D=dict(BIG=1,PEAK=8,NSEEDS=6),**L)
job('C27','long','ini_long.c',D=dict(PEAK=40,STEPS=6,NSYM=4,NSEEDS=8),**L)
job('C28','long','opt_long.c',D=dict(PEAK=16,STEPS=8,NSEEDS=8),**L)
for k in (2,3): job('C06','anyhash%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=0,K=3,NB=2,HASHANY=1)); job('C06','anyhash_pre%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=1,K=2,NB=4,HASHANY=1)); job('C06','anyhash_pre2_%d'%k,'bmap_hist.c',D=dict(KIND=k,PRE=2,K=2,NB=4,HASHANY=1),tier='thorough')
job('C19','big','fmt.c',D=dict(MODE=5,K=1,LIM=1,LENS='100,995,996,997,998,1000,4091,4092,4093,4094,5000'),**L)
job('C34','longtext','logh.c',D=dict(MODE=0,K=1,LENS='31,32,63,64,65,255,256,1000,4096,5000',LMAX=5000,OUTMAX=5100),**L)
job('C36','long','stdinline.c',D=dict(L=6,LENS='60,130,300',LMAX=300,BUFS='2,8,64,100,256,301,400'),**L)
job('C11','long','bits.c',D=dict(MODE=0,LENS='23,31,32,63,64,99,127,255,256,257,511,999',LMAX=999))
for e,s,pk,st in ((64,2,70,400),(128,4,140,900),(512,1,520,2600),(16,3,17,200)): job('C09','long%d'%e,'pool_long.c',D=dict(MAXE=e,ES=s,PEAK=pk,STEPS=st),**L)
job('C24','longdir','filelist_long.c',D=dict(MODE=0,LENS='20,100,500,1000,1900,3000',PEAK=4,NSEEDS=4),**L); job('C24','longlist','filelist_long.c',D=dict(MODE=1,LENS='1,30',PEAK=30,NSEEDS=6),**L)

# sizes past 2^16
HG=dict(steps=400000000,T=240)
for k in range(4): job('C05' if k < 2 else 'C06','args%d'%k,'bmap_arg.c',D=dict(KIND=k,N=3))
HOWN=65536
for p,m in (('C12',0),('C14',1),('C13',2),('C03',3),('C09',4),('C21',5),('C34',6),('C15',7)): job(p,'macros','macros.c',D=dict(MODE=m))
for p,m in (('C12',0),('C13',1),('C14',2),('C01',3),('C07',6),('C09',8),('C21',11),('C27',14),('C28',15),('C19',17),('C11',18),('C32',19),('C37',25),('C36',26)): job(p,'huge','huge.c',D=dict(MODE=m),**HG)
for p,o in (('C25',0),('C25',1),('C26',2),('C26',3)): job(p,'huge%d'%o,'huge.c',D=dict(MODE=13,OP=o),**HG)
for k in (0,1): job('C04','huge%d'%k,'huge.c',D=dict(MODE=4,KIND=k),**HG); job('C05','huge%d'%k,'huge.c',D=dict(MODE=5,KIND=k),**HG)
for k in (2,3): job('C06','huge%d'%k,'huge.c',D=dict(MODE=5,KIND=k,NB=3,HASHF='k/2*2654435761u'),**HG); job('C06','huge1_%d'%k,'huge.c',D=dict(MODE=5,KIND=k,NB=1,HASHF='k'),**HG)
for nb,h in ((1,'7'),(70001,'i*2654435761u'),(100,'i*40503u')): job('C08','huge%d'%nb,'huge.c',D=dict(MODE=7,NB=nb,NE=70001 if nb==1 else 9000,HASHF=h),**HG)
for b,p in ((1,'C22'),(2,'C23')): job(p,'huge','huge.c',D=dict(MODE=12,BITS=b),**HG)
for k in (0,1): job('C29','huge%d'%k,'huge.c',D=dict(MODE=16,CAST=k,LENS='15,16,17,31,32,33,63,64,65,100,255,256,257,1000,4096,65535,65536,65537,70001'),merge=M,**HG)
job('C15','huge','huge.c',D=dict(MODE=9),merge=M,**HG); job('C16','huge','huge.c',D=dict(MODE=10),merge=M+['hexval'],**HG)
job('C30','huge','md5h.c',D=dict(MODE=0,HUGE_N=1,LENS='{65536,70001}',CUTS='{0,65537}'),**HG); job('C30','hugestr','md5h.c',D=dict(MODE=2,HUGE_N=1,LENS='{70001}'),**HG)
job('C31','huge','sha512h.c',D=dict(MODE=0,HUGE_N=1,LENS='{65536,70001}',CUTS='{0,65537}'),eflags=['-linmax','2000'],**HG)
job('C34','hugetext','logh.c',D=dict(MODE=0,K=1,HUGE_N=70001,OUTMAX=70100),**HG)
for o in (0,1,65535,65536,70001): job('C01','huge_%d'%o,'huge.c',D=dict(MODE=20,OP=o),**HG)
job('C04','huge_items','huge.c',D=dict(MODE=21),**HG)
for o in (65535,65536,70001): job('C07','huge_%d'%o,'huge.c',D=dict(MODE=22,OP=o),**HG); job('C08','huge_%d'%o,'huge.c',D=dict(MODE=23,OP=o),**HG)
for k in range(4):
 for ne in (16,256,HOWN): job('C05' if k<2 else 'C06','own_n%d_%d'%(k,ne),'huge.c',D=dict(MODE=27,KIND=k,NE=ne),**HG)
job('C23','longtemp','tmpdir.c',D=dict(MODE=4),**HG); job('C19','hugewidth','huge.c',D=dict(MODE=28),**HG); job('C24','hugelist','huge.c',D=dict(MODE=29),**HG)
for o in (0,1): job('C05','huge_items%d'%o,'huge.c',D=dict(MODE=24,OP=o),**HG); job('C06','huge_items%d'%o,'huge.c',D=dict(MODE=24,OP=o),**HG)
job('C24','longnames','filelist_long.c',D=dict(MODE=1,PEAK=4,NSEEDS=3,NAMEX=1,LENS='4000,4060'),**L)
