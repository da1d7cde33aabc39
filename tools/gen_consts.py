#!/usr/bin/env python3
"""Pins the constants of package hash (as of the base commit) into the specification and the harness.
   usage: gen_consts.py ark.go   (git -C /repo show 1e01769:hash/ark.go)"""
import re, sys
src = open(sys.argv[1]).read()
xs = src[src.index('Set the values of xArr'):src.index('Set the values of yArr')] if 'Set the values of yArr' in src else None
nums = re.findall(r'"(\d{40,})"', src)
assert len(nums) == 300, len(nums)
X, Y, A = nums[:100], nums[100:200], nums[200:]
P = 21888242871839275222246405745257275088548364400416034343698204186575808495617
def limbs(s):
    n = int(s) % P
    return '<<' + ', '.join(str((n >> (13*i)) & 8191) for i in range(20)) + '>>'
with open('spec/HashConstants.tla', 'w') as f:
    f.write('----------------------------- MODULE HashConstants -----------------------------\n')
    f.write('(* The constants of package hash, pinned by tools/gen_consts.py from the base commit. *)\n')
    for name, L in (('X', X), ('Y', Y), ('Ark', A)):
        f.write('%sConst ==\n <<' % name + ',\n   '.join(limbs(s) for s in L) + '>>\n')
    f.write('\nFrArk(i) == ArkConst[i]\nFrXArr(i) == XConst[i]\nFrYArr(i) == YConst[i]\n')
    f.write('================================================================================\n')
with open('harness/consts.go', 'w') as f:
    f.write('package main\n\n// Pinned by tools/gen_consts.py from the base commit.\n\nimport "github.com/consensys/gurvy/bn256/fr"\n\n')
    f.write('var arks, xArr, yArr []fr.Element\n\nfunc init() {\n\tset := func(ss []string) []fr.Element {\n\t\tres := make([]fr.Element, len(ss))\n\t\tfor i := range ss {\n\t\t\tres[i].SetString(ss[i])\n\t\t}\n\t\treturn res\n\t}\n')
    for name, L in (('xArr', X), ('yArr', Y), ('arks', A)):
        f.write('\t%s = set([]string{\n' % name + ''.join('\t\t"%s",\n' % s for s in L) + '\t})\n')
    f.write('}\n')
