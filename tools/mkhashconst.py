#!/usr/bin/env python3
"""Generates spec/HashConst.tla: the constants of RFC 1321 and FIPS 180-4 from
their mathematical definitions, and the chaining values after 2^29 zero bytes
(verified against hashlib by finishing the computation)."""
import math, os, hashlib, subprocess, tempfile, struct
from decimal import Decimal, getcontext
getcontext().prec = 80
def limbs(v, n): return "<<" + ", ".join(str(v >> (16 * i) & 0xffff) for i in reversed(range(n))) + ">>"
K = [int(abs(math.sin(i + 1)) * 2**32) for i in range(64)]
pr = [p for p in range(2, 420) if all(p % d for d in range(2, p))][:80]
def root(p, k):   # floor(frac(p^(1/k)) * 2^64)
    lo, hi = 0, p << 64
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m**k <= p << (64 * k): lo = m
        else: hi = m - 1
    return lo & (2**64 - 1)
K512 = [root(p, 3) for p in pr]; IV512 = [root(p, 2) for p in pr[:8]]
MD5IV = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476]
SH = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4
C = r'''
#include <stdio.h>
#include <stdint.h>
#include <string.h>
static const uint32_t K[64]={%s}; static const int S[64]={%s};
static const uint64_t Q[80]={%s}; static const uint64_t IV[8]={%s};
static uint32_t v[4]={0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476}; static uint64_t h[8];
static void md(const uint32_t*m){uint32_t a=v[0],b=v[1],c=v[2],d=v[3];for(int i=0;i<64;i++){uint32_t f;int g;if(i<16)f=(b&c)|(~b&d),g=i;else if(i<32)f=(d&b)|(~d&c),g=(5*i+1)&15;else if(i<48)f=b^c^d,g=(3*i+5)&15;else f=c^(b|~d),g=(7*i)&15;uint32_t t=d;d=c;c=b;uint32_t x=a+f+K[i]+m[g];b=b+((x<<S[i])|(x>>(32-S[i])));a=t;}v[0]+=a;v[1]+=b;v[2]+=c;v[3]+=d;}
#define R(x,n) (((x)>>n)|((x)<<(64-n)))
static void sh(const uint64_t*m){uint64_t w[80],s[8];for(int i=0;i<16;i++)w[i]=m[i];for(int i=16;i<80;i++)w[i]=(R(w[i-2],19)^R(w[i-2],61)^(w[i-2]>>6))+w[i-7]+(R(w[i-15],1)^R(w[i-15],8)^(w[i-15]>>7))+w[i-16];memcpy(s,h,64);for(int i=0;i<80;i++){uint64_t t1=s[7]+(R(s[4],14)^R(s[4],18)^R(s[4],41))+((s[4]&s[5])^(~s[4]&s[6]))+Q[i]+w[i],t2=(R(s[0],28)^R(s[0],34)^R(s[0],39))+((s[0]&s[1])^(s[0]&s[2])^(s[1]&s[2]));for(int j=7;j>0;j--)s[j]=s[j-1];s[4]+=t1;s[0]=t1+t2;}for(int i=0;i<8;i++)h[i]+=s[i];}
int main(){uint32_t z[16]={0};uint64_t y[16]={0};memcpy(h,IV,64);
for(int big=0;big<2;big++){long k=big?7:1;for(long i=0;i<k<<23;i++)md(z);for(long i=0;i<k<<22;i++)sh(y);
for(int i=0;i<4;i++)printf("%%u ",v[i]);for(int i=0;i<8;i++)printf("%%lu ",h[i]);
/* finish: 2^29 bytes = 2^32 bits, 2^32 bytes = 2^35 bits */
uint32_t v0[4];uint64_t h0[8];memcpy(v0,v,16);memcpy(h0,h,64);
z[0]=0x80;z[15]=big?8:1;md(z);y[0]=1ull<<63;y[15]=1ull<<(big?35:32);sh(y);for(int i=0;i<4;i++)printf("%%u ",v[i]);for(int i=0;i<8;i++)printf("%%lu ",h[i]);
memcpy(v,v0,16);memcpy(h,h0,64);z[0]=z[15]=0;y[0]=y[15]=0;}
unsigned char B[256];int i,j=0;for(i=0;i<256;i++)B[i]=i;for(i=0;i<256;i++){j=(j+B[i]+"Key"[i%%3])&255;unsigned char t=B[i];B[i]=B[j];B[j]=t;}
i=j=0;for(long n=0;n<(1L<<32)+32;n++){i=(i+1)&255;j=(j+B[i])&255;unsigned char t=B[i];B[i]=B[j];B[j]=t;if(n>=1L<<32)printf("%%u ",B[(B[i]+B[j])&255]);}
}
''' % (",".join(map(str, K)), ",".join(map(str, SH)), ",".join("%dull" % x for x in K512), ",".join("%dull" % x for x in IV512))
d = tempfile.mkdtemp(); open(d + "/c.c", "w").write(C)
subprocess.run(["gcc", "-O2", "-w", "-o", d + "/c", d + "/c.c"], check=True)
o = list(map(int, subprocess.run([d + "/c"], stdout=subprocess.PIPE, text=True).stdout.split()))
subprocess.run(["rm", "-r", d])
m = hashlib.md5(); s = hashlib.sha512(); z = bytes(1 << 20)
for _ in range(512): m.update(z); s.update(z)
assert struct.pack("<4I", *o[12:16]) == m.digest() and struct.pack(">8Q", *o[16:24]) == s.digest()
for _ in range(7 * 512): m.update(z); s.update(z)
assert struct.pack("<4I", *o[36:40]) == m.digest() and struct.pack(">8Q", *o[40:48]) == s.digest()
L = ["----------------------------- MODULE HashConst ------------------------------",
 "\\* generated by tools/mkhashconst.py; words as 16-bit limbs, most significant first", "EXTENDS Integers, Sequences",
 "MD5K == <<" + ", ".join(limbs(x, 2) for x in K) + ">>", "MD5S == <<" + ", ".join(map(str, SH)) + ">>",
 "MD5IV == <<" + ", ".join(limbs(x, 2) for x in MD5IV) + ">>",
 "SHAK == <<" + ", ".join(limbs(x, 4) for x in K512) + ">>", "SHAIV == <<" + ", ".join(limbs(x, 4) for x in IV512) + ">>",
 "\\* chaining values after 2^29 and 2^32 zero bytes; RC4 key stream of \"Key\" from byte 2^32 on",
 "MD5Huge == <<" + ", ".join(limbs(x, 2) for x in o[24:28]) + ">>", "SHAHuge == <<" + ", ".join(limbs(x, 4) for x in o[28:36]) + ">>",
 "RC4Huge == <<" + ", ".join(map(str, o[48:80])) + ">>",
 "MD5Big == <<" + ", ".join(limbs(x, 2) for x in o[:4]) + ">>", "SHABig == <<" + ", ".join(limbs(x, 4) for x in o[4:12]) + ">>",
 "============================================================================="]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "HashConst.tla"), "w").write("\n".join(L) + "\n")
