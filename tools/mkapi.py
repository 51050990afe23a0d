#!/usr/bin/env python3
# Snapshot of the public C API signatures -> lib/api.json  (run by hand when the API changes)
import re, json
s = open('/repo/include/capypdf.h.in').read()
s = re.sub(r'//.*', '', s); s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
enums = set(re.findall(r'typedef enum \{.*?\}\s*(CapyPDF_\w+);', s, re.S))
ids = set(re.findall(r'typedef struct \{[^}]*\}\s*(CapyPDF_\w+);', s))
enumvals = {}
for m in re.finditer(r'typedef enum \{(.*?)\}\s*(CapyPDF_\w+);', s, re.S):
    v = 0; lst = []
    for it in m[1].split(','):
        it = it.strip()
        if not it: continue
        if '=' in it:
            n, e = it.split('='); v = eval(e); it = n.strip()
        lst.append((it, v)); v += 1
    enumvals[m[2]] = lst
api = {}
for m in re.finditer(r'CAPYPDF_PUBLIC\s+([\w\s\*]+?)\s*(\*?)(capy_\w+)\((.*?)\)\s*([^;]*);', s, re.S):
    args = []
    for a in re.sub(r'\s+', ' ', m[4]).strip().split(','):
        a = a.strip()
        mm = re.match(r'(?:const )?(\w+)\s*((?:\*|const|\s)*)(\w*)$', a)
        base, st, nm = mm[1], mm[2].count('*'), mm[3]
        const = a.startswith('const')
        if base == 'char' and st == 1: k = 'str'
        elif st == 0:
            k = {'double': 'f', 'int32_t': 'i', 'uint32_t': 'u', 'int64_t': 'l', 'uint64_t': 'U', 'CapyPDF_EC': 'i'}.get(base)
            if k is None: k = 'e' if base in enums else 'id' if base in ids else None
            assert k, (m[3], a)
        elif st == 1:
            if base == 'double': k = 'pf'
            elif base in ids: k = 'pid'
            elif base in enums: k = 'pe'
            elif base in ('int32_t', 'uint32_t'): k = 'pi'
            else: k = 'h'
        else:
            k = 'ph'
        args.append([k, base.replace('CapyPDF_', ''), nm])
    api[m[3][5:]] = args
json.dump({'api': api, 'enums': {k.replace('CapyPDF_', ''): v for k, v in enumvals.items()}}, open('/verif/lib/api.json', 'w'), indent=0)
print(len(api), len(enums), len(ids))
