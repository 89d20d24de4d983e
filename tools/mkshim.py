#!/usr/bin/env python3
# Generates driver/consts.inc and the constant tables of driver/fshim.F90: every named
# constant that both mpi.h and mpif.h define (their values are compared by property C19).
import re,sys,os
R='/repo'; D=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','driver')
f=open(R+'/mpif.h').read(); h=open(R+'/mpi.h').read()
f=re.sub(r'!.*','',f)
names=[]
for m in re.finditer(r'parameter\s*\(([^!\n]*)\)\s*$',f,re.I|re.M):
    depth=0; part=''; parts=[]
    for ch in m.group(1):
        if ch=='(': depth+=1
        if ch==')': depth-=1
        if ch==',' and depth==0: parts.append(part); part=''
        else: part+=ch
    parts.append(part)
    for p in parts: names.append(p.split('=')[0].strip().upper())
hm=re.findall(r'#define\s+(MPI_\w+)\s+\S',h)
common=[n for n in names if n in hm and n not in('MPI_STATUS_IGNORE','MPI_STATUSES_IGNORE','MPI_IN_PLACE')]
spec={'MPI_SOURCE':'offsetof(MPI_Status,MPI_SOURCE)/sizeof(int)+1','MPI_TAG':'offsetof(MPI_Status,MPI_TAG)/sizeof(int)+1','MPI_ERROR':'offsetof(MPI_Status,MPI_ERROR)/sizeof(int)+1','MPI_OFFSET_KIND':'sizeof(MPI_Offset)','MPI_STATUS_SIZE':'sizeof(MPI_Status)/sizeof(int)'}
allf=[n for n in common if n not in spec]+[n for n in names if n in spec]
print('not in mpi.h:',[n for n in names if n not in allf])
with open(D+'/consts.inc','w') as o:
    for n in allf: o.write(f'cv["{n}"]=(long)({spec[n]});\n' if n in spec else f'K({n})\n')
    o.write('cv["MPI_ADDRESS_KIND"]=(long)sizeof(MPI_Aint);\n')
src=open(D+'/fshim.F90').read()
tail=src[src.index('      integer function vfshim_nconst' if '      integer function vfshim_nconst' in src else '      function vfshim_nconst'):]
mod=allf+['MPI_ADDRESS_KIND']; N=len(mod)
out='! Real Fortran: addresses of the special arguments, constants as Fortran sees them.\n! The lists are generated by tools/mkshim.py\n\n'
out+=f"      subroutine vf_inc(v)\n      implicit none\n      include 'mpif.h'\n      integer v({N})\n"
out+=''.join(f'      v({i+1})={n}\n' for i,n in enumerate(allf))+'! MPI_ADDRESS_KIND is a name of the module only\n'+f'      v({N})=8\n      end subroutine\n\n'
out+=f"      subroutine vf_mod(v)\n      use mpi\n      implicit none\n      integer v({N})\n"
out+=''.join(f'      v({i+1})={n}\n' for i,n in enumerate(mod))+'      end subroutine\n\n'
out+="      subroutine vf_name(i,s)\n      integer i\n      character(len=64) s\n      select case (i)\n"
out+=''.join(f"      case ({i+1})\n      s='{n}'\n" for i,n in enumerate(mod))+"      end select\n      end subroutine\n\n"
tail=re.sub(r'\b86\b',str(N),tail)
open(D+'/fshim.F90','w').write(out+tail)
print(N)
