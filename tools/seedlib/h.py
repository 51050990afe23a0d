"""Helpers of the demonstrations: the binding of the freshly built library and a small reader of PDF objects."""
import os, re, sys, zlib, ctypes
import capypdf
lib = capypdf.libfile


def objects(path):
    """object number -> (dictionary text, decoded stream or None)"""
    data = open(path, 'rb').read()
    out = {}
    pos = 0
    for m in re.finditer(rb'(?:^|\n)(\d+) 0 obj\n', data):
        if m.start() < pos: continue
        num = int(m[1])
        st = data.find(b'stream\n', m.end())
        en = data.find(b'endobj', m.end())
        if st != -1 and st < en:
            head = data[m.end():st]
            ln = int(re.search(rb'/Length (\d+)', head)[1])
            body = data[st + 7:st + 7 + ln]
            if b'/FlateDecode' in head: body = zlib.decompress(body)
            pos = st + 7 + ln
            out[num] = (head.decode('latin-1'), body)
        else:
            out[num] = (data[m.end():en].decode('latin-1'), None)
    for num, (head, body) in list(out.items()):
        if '/ObjStm' in head and body is not None:
            first = int(re.search(r'/First (\d+)', head)[1])
            n = [int(x) for x in body[:first].split()]
            offs = n[1::2] + [len(body) - first]
            for i, o in enumerate(n[0::2]):
                out[o] = (body[first + offs[i]:first + offs[i + 1]].decode('latin-1'), None)
    return out


def find(objs, *what):
    r = [(n, h, b) for n, (h, b) in sorted(objs.items()) if all(w in h for w in what)]
    return r


def must(cond, msg):
    if not cond:
        print('DEMO FAILED:', msg)
        sys.exit(1)


def gen(name='out.pdf', debug=False):
    p = capypdf.DocumentProperties()
    return capypdf.Generator(name, p)
