"""C02: SIMD/GPU wrapper macros equal scalar arithmetic, lane by lane, on every ISA.

Bounded-exhaustive: all operand tuples over a value alphabet, each placed at every lane,
loaded from every alignment, for every branch of the two headers (each compiled with the
compiler flags that select it).
"""

import os

import vf

HELP = f"{vf.REPO}/nrpy/helpers"
ISAS = {
    "avx512": ["-mavx512f", "-mavx512dq", "-mfma"],
    "avx512f-only": ["-mavx512f", "-mno-avx512dq", "-mfma"],
    "avx2+fma": ["-mavx2", "-mfma", "-mno-avx512f"],
    "avx-nofma": ["-mavx", "-mno-fma", "-mno-avx2"],
    "sse3": ["-msse3", "-mno-avx"],
    "sse2": ["-msse2", "-mno-sse3"],
    "sse2+fma": ["-mfma", "-DVF_FORCE_SSE2"],
    "scalar": ["-U__SSE2__", "-DVF_SCALAR"],
    "cuda-host": ["-DVF_CUDA"],
    "cuda-device-standin": ["-DVF_CUDA", "-D__NVCC__"],
}

SRC = r"""
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define REAL double
#ifdef VF_FORCE_SSE2
#include <immintrin.h>
#undef __AVX512F__
#undef __AVX2__
#undef __AVX__
#endif
#ifdef VF_CUDA
#define MAYBE_UNUSED __attribute__((unused))
static inline double __dadd_rn(double a,double b){return a+b;}
static inline double __dsub_rn(double a,double b){return a-b;}
static inline double __dmul_rn(double a,double b){return a*b;}
static inline double __ddiv_rn(double a,double b){return a/b;}
static inline double __fma_rn(double a,double b,double c){return fma(a,b,c);}
static inline double __dsqrt_rn(double a){return sqrt(a);}
static inline double __ldg(const double *a){return *a;}
#include "HELP/cuda_intrinsics.h"
#define VEC REAL_CUDA_ARRAY
#define W CUDA_width
#define F(x) x##CUDA
#else
#include "HELP/simd_intrinsics.h"
#define VEC REAL_SIMD_ARRAY
#define W simd_width
#define F(x) x##SIMD
#endif

static const double V1[] = {0.0,-0.0,1.0,-1.0,0.1,-0.1,2.5,-3.75,M_PI,1e-150,-1e-150,1e150,-1e150,5e-324,-2.2250738585072014e-308,INFINITY,-INFINITY,NAN};
#define N1 ((int)(sizeof V1/sizeof *V1))
static const double V3[] = {0.0,1.0,-1.0,0.1,-2.5,M_PI,-1e-40,1e40,7.0,-0.0};
#define N3 ((int)(sizeof V3/sizeof *V3))
static long evals=0; static int nbad=0;
static double bufA[64],bufB[64],bufC[64],bufR[64];
static int biteq(double x,double y){ if(isnan(x)&&isnan(y)) return 1; return memcmp(&x,&y,8)==0; }
static void bad(const char*op,int lane,double a,double b,double c,double got,double want){
  if(nbad++<6) printf("BAD %s lane=%d args=(%.17g,%.17g,%.17g) got=%.17g want=%.17g\n",op,lane,a,b,c,got,want);
}
#define EXACT 0
#define TOL 1
static void judge(const char*op,int mode,int lane,double a,double b,double c,double got,double want,double mag){
  evals++;
  int ok = mode==EXACT ? biteq(got,want) : (fabs(got-want) <= 1e-15*mag || biteq(got,want) || got==want);
  if(!ok) bad(op,lane,a,b,c,got,want);
}
/* operands: tuple index t -> lane (t+shift)%W, at alignment off */
#define RUN(op, n, ntup, GETA, GETB, GETC, EXPR, REF, MODE, MAG) do { \
  for(int shift=0; shift<W; shift++) for(int off=0; off<2; off++) \
  for(long base=0; base<(ntup); base+=W) { \
    double ra[W],rb[W],rc[W]; \
    for(int l=0;l<W;l++){ long t=(base+(l+shift)%W)%(ntup); ra[l]=GETA; rb[l]=GETB; rc[l]=GETC; } \
    memcpy(bufA+off,ra,sizeof ra); memcpy(bufB+off,rb,sizeof rb); memcpy(bufC+off,rc,sizeof rc); \
    for(int i=0;i<64;i++) bufR[i]=12345.0; \
    { const VEC A=F(Read)(&bufA[off]); const VEC B=F(Read)(&bufB[off]); const VEC C=F(Read)(&bufC[off]); (void)A;(void)B;(void)C; \
      F(Write)(&bufR[8+off], EXPR); } \
    for(int l=0;l<W;l++){ double a=ra[l],b=rb[l],c=rc[l]; (void)a;(void)b;(void)c; judge(op,MODE,l,a,b,c,bufR[8+off+l],(REF),(MAG)); } \
    for(int i=0;i<64;i++) if((i<8+off||i>=8+off+W) && bufR[i]!=12345.0) bad(op " (write outside its lanes)",i,0,0,0,bufR[i],12345.0); \
  } } while(0)
#define U1 V1[t%N1]
#define B1 V1[t%N1]
#define B2 V1[(t/N1)%N1]
#define T1 V3[t%N3]
#define T2 V3[(t/N3)%N3]
#define T3 V3[(t/N3/N3)%N3]
int main(void){
  const long n1=N1, n2=(long)N1*N1, n3=(long)N3*N3*N3;
  RUN("read/write",1,n1,U1,0,0, A, a, EXACT, 1);
  RUN("abs",1,n1,U1,0,0, F(Abs)(A), fabs(a), EXACT, 1);
  RUN("sqrt",1,n1,fabs(U1),0,0, F(Sqrt)(A), sqrt(a), EXACT, 1);
  RUN("add",2,n2,B1,B2,0, F(Add)(A,B), a+b, EXACT, 1);
  RUN("sub",2,n2,B1,B2,0, F(Sub)(A,B), a-b, EXACT, 1);
  RUN("mul",2,n2,B1,B2,0, F(Mul)(A,B), a*b, EXACT, 1);
  RUN("div",2,n2,B1,B2,0, F(Div)(A,B), a/b, EXACT, 1);
  RUN("fma",3,n3,T1,T2,T3, F(FusedMulAdd)(A,B,C), a*b+c, TOL, fabs(a*b)+fabs(c));
  RUN("fms",3,n3,T1,T2,T3, F(FusedMulSub)(A,B,C), a*b-c, TOL, fabs(a*b)+fabs(c));
  RUN("nfma",3,n3,T1,T2,T3, F(NegFusedMulAdd)(A,B,C), -a*b+c, TOL, fabs(a*b)+fabs(c));
  RUN("nfms",3,n3,T1,T2,T3, F(NegFusedMulSub)(A,B,C), -a*b-c, TOL, fabs(a*b)+2*fabs(c));
  /* composition: arguments that are themselves wrapper calls */
  RUN("add(sub,sub)",3,n3,T1,T2,T3, F(Add)(F(Sub)(A,B),F(Sub)(B,C)), (a-b)+(b-c), EXACT, 1);
  RUN("sub(add,sub)",3,n3,T1,T2,T3, F(Sub)(F(Add)(A,B),F(Sub)(B,C)), (a+b)-(b-c), EXACT, 1);
  RUN("mul(add,sub)",3,n3,T1,T2,T3, F(Mul)(F(Add)(A,B),F(Sub)(B,C)), (a+b)*(b-c), EXACT, 1);
  RUN("div(add,sub)",3,n3,T1,T2,T3, F(Div)(F(Add)(A,B),F(Sub)(B,C)), (a+b)/(b-c), EXACT, 1);
  RUN("abs(sub)",3,n3,T1,T2,T3, F(Abs)(F(Sub)(A,B)), fabs(a-b), EXACT, 1);
#define M(x,y,z) (fabs((x)*(y))+2*fabs(z)+1e-300)
  RUN("fma(sub,add,sub)",3,n3,T1,T2,T3, F(FusedMulAdd)(F(Sub)(A,B),F(Add)(A,C),F(Sub)(B,C)), (a-b)*(a+c)+(b-c), TOL, M(a-b,a+c,b-c));
  RUN("fms(sub,add,sub)",3,n3,T1,T2,T3, F(FusedMulSub)(F(Sub)(A,B),F(Add)(A,C),F(Sub)(B,C)), (a-b)*(a+c)-(b-c), TOL, M(a-b,a+c,b-c));
  RUN("nfma(sub,add,sub)",3,n3,T1,T2,T3, F(NegFusedMulAdd)(F(Sub)(A,B),F(Add)(A,C),F(Sub)(B,C)), -(a-b)*(a+c)+(b-c), TOL, M(a-b,a+c,b-c));
  RUN("nfms(sub,add,sub)",3,n3,T1,T2,T3, F(NegFusedMulSub)(F(Sub)(A,B),F(Add)(A,C),F(Sub)(B,C)), -(a-b)*(a+c)-(b-c), TOL, M(a-b,a+c,b-c));
  RUN("const",1,n1,U1,0,0, F(Add)(F(Mul)(F(Const)(1.0/3.0-2.0),F(Const)(1.0+1.0)),F(Mul)(A,F(Const)(0.0+0.0))), ((1.0/3.0-2.0)*2.0)+a*0.0, EXACT, 1);
  RUN("zero",1,n1,U1,0,0, F(SetZero), 0.0, EXACT, 1);
  { const VEC upwind_Integer_0=F(Const)(0.0), upwind_Integer_1=F(Const)(1.0); (void)upwind_Integer_0;(void)upwind_Integer_1;
    RUN("upwind",1,n1,U1,0,0, UPWIND_ALG(A), (a>0.0?1.0:0.0), EXACT, 1);
    RUN("upwind(sub)",3,n3,T1,T2,T3, UPWIND_ALG(F(Sub)(A,B)), (a-b>0.0?1.0:0.0), EXACT, 1); }
  /* horizontal sums: every value at every lane */
  for(int k=0;k<N3;k++) for(int j=0;j<N3;j++) for(int lane=0;lane<W;lane++){
    double x[8]={0}; double want=0,mag=0; for(int l=0;l<W;l++){ x[l]= l==lane? V3[k] : V3[(j+l)%N3]; want+=x[l]; mag+=fabs(x[l]); }
    memcpy(bufA+1,x,sizeof(double)*W); { const VEC A=F(Read)(&bufA[1]); double g=F(HorizAdd)(A); judge("horizadd",TOL,lane,V3[k],V3[j],0,g,want,4*mag);
      double g2=2.0*F(HorizAdd)(A); judge("2*horizadd",TOL,lane,V3[k],V3[j],0,g2,2*want,8*mag); } }
#if defined(VF_SCALAR) || defined(VF_CUDA)
  for(int k=0;k<N3;k++){ double a=V3[k]; if(fabs(a)<20){ judge("exp",TOL,0,a,0,0,F(Exp)(a-1.0),exp(a-1.0),2*exp(a)); judge("sin",TOL,0,a,0,0,F(Sin)(a-1.0),sin(a-1.0),4); judge("cos",TOL,0,a,0,0,F(Cos)(a-1.0),cos(a-1.0),4);} }
#endif
  printf("EVALS %ld WIDTH %d BAD %d\n",evals,(int)W,nbad);
  return 0;
}
"""
WIDTH = {"avx512": 8, "avx512f-only": 8, "avx2+fma": 4, "avx-nofma": 4, "sse3": 2, "sse2": 2, "sse2+fma": 2, "scalar": 1, "cuda-host": 1, "cuda-device-standin": 1}


def one(name, opt, compiler, scratch):
    src = vf.write(f"{scratch}/c02_{name}_{opt}_{compiler}.c", SRC.replace("HELP", HELP))
    exe = src[:-2]
    try:
        vf.cc([src], exe, ISAS[name], base=["-std=gnu99", "-w", "-ffp-contract=off", opt], compiler=compiler)
    except vf.CompileError as e:
        return None, str(e)
    p = vf.run([exe])
    return p.returncode, p.stdout


def cpu_has(flag):
    with open("/proc/cpuinfo") as fh:
        return f" {flag} " in fh.read().replace("\n", " ")


def body(chk):
    jobs = []
    for name in ISAS:
        if name.startswith("avx512") and not cpu_has("avx512f"):
            chk.cap("CPU without AVX-512")
            continue
        for opt in ("-O0", "-O2"):
            for compiler in ("gcc", "clang"):
                if compiler == "clang" and name == "scalar":
                    continue  # clang's headers refuse -U__SSE2__; the scalar branch needs no intrinsics anyway
                jobs.append((name, opt, compiler, chk.scratch))
    for (name, opt, compiler, _), (rc, out) in zip(jobs, vf.pmap(one, jobs)):
        if rc is None:
            chk.violation(f"compile:{name}", f"wrappers do not compile for {name} {opt} {compiler}: {out[-900:]}", {"isa": name, "flags": ISAS[name]})
            continue
        last = out.strip().splitlines()[-1] if out.strip() else ""
        if rc != 0 or not last.startswith("EVALS"):
            chk.violation(f"crash:{name}", f"wrapper harness ended with {rc} for {name} {opt} {compiler}: {out[-300:]}", {"isa": name})
            continue
        _, ev, _, w, _, nb = last.split()
        chk.count("evaluations", int(ev))
        chk.count("configurations")
        chk.outcome((name, ev, w))
        if int(w) != WIDTH[name]:
            raise vf.HarnessError(f"{name} selected width {w}")
        for ln in out.splitlines():
            if ln.startswith("BAD"):
                chk.violation(f"{name}:{' '.join(ln.split()[1:2])}", f"{name} {opt} {compiler}: {ln}", {"isa": name, "flags": ISAS[name], "line": ln})
        chk.sample(f"{name} {opt} {compiler}: {last}")
    chk.counters["distinct"] = chk.counters.get("configurations", 0)


if __name__ == "__main__":
    vf.main("C02", "exploration", "header branch x compiler x optimisation; every operand tuple at every lane", body)
