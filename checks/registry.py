"""property -> (level, parts, assumptions)"""
import docs, meta, bind, fuzz, fault, leak
from docpart import DocPart

ASSUME = ['the model in lib/model.py states the documented behaviour of the API', 'lib/pdf.py parses PDF files strictly and correctly',
          'FreeType, zlib and the C library work as documented']
STATEFUL = 'stateful model-based property testing: random API histories against a reference model and an independent PDF parser'
NOTE = 'Exploration of seeded random API histories; every judged fact comes from the independent model and parser. Nothing is proved beyond the histories run.'
META = 'metamorphic property testing over random API histories (variants of one history must write the same document)'
MNOTE = 'Exploration of seeded random histories and schedules; the oracle is the library itself on the transformed history, next to the reference model in other checks. Nothing is proved beyond the histories run.'
INFO, NA = {}, {}
for c in docs.DEFS: INFO[c] = ('exploration', STATEFUL, NOTE)
INFO['C15'] = ('exploration', 'model-based property testing with injected invalid calls, under AddressSanitizer too, and differential testing against the history without its failed calls', NOTE)
INFO['C24'] = ('exploration', 'metamorphic property testing: interleavings, builders changed or destroyed after use, contexts reused, threads under ThreadSanitizer, against the same documents made alone', MNOTE)
INFO['C25'] = ('exploration', META, MNOTE)
INFO['C26'] = ('exploration', 'differential property testing: random API histories executed through the C functions, the Python module and the C++ header', 'Exploration of seeded random histories; the C functions are the reference. Nothing is proved beyond the histories run.')
FUZZ = 'coverage-guided fuzzing (libFuzzer, ASan, UBSan) with generated seeds and container-aware mutation, and property testing of documents made with damaged files'
FNOTE = 'Exploration: millions of executions in the thorough tier; memory errors are seen by the sanitizers, not proved absent. Allocations above 256 MiB are made to fail, and PNG files announcing more than 16 million pixels are not tried.'
INFO['C13'] = INFO['C14'] = ('exploration', FUZZ, FNOTE)
INFO['C23'] = ('fault_enumeration', 'property testing with injected faults: random documents written under failing, shortened and interrupted system calls, against old-or-complete-new and a synced-before-rename rule',
               'Faults are injected below the C library at every file system call of the write (all of them for most documents, a sample for big ones). Crashes of the process are covered, not of the machine: for that only the order of sync and rename is checked.')
INFO['C27'] = ('exploration', 'property testing of resource use: random API histories repeated in one process must reach a fixed point of memory, descriptors and mappings',
               'Exploration of seeded random histories. Only growth that goes on with every repetition is reported; nothing is proved beyond the histories run.')
MASSUME = ['documents are compared with SOURCE_DATE_EPOCH fixed; the /ID entry is ignored']


def get(p):
    if p in ('C08', 'C09', 'C10'):
        a = docs.part(p); a.name = 'images' if p != 'C10' else 'colours'
        b = docs.asanpart(p, 700, 8000, .4)
        return 'exploration', [a, b], ASSUME + {'C08': [], 'C09': ['lib/imggen.py writes PNG and TIFF files whose samples are what it says (compared with PIL)', 'libjpeg-made JPEG headers are right'],
                                               'C10': ['Little CMS converts as ICC demands; the same library serves as oracle, called independently']}[p]
    if p == 'C13':
        return 'exploration', [fuzz.MutDoc('font', 12000, 200000, .5), fuzz.FuzzPart('font', 38, 900, 1)], ['a hang is an execution of more than 60 s']
    if p == 'C14':
        return 'exploration', [fuzz.MutDoc('image', 16000, 200000, .4), fuzz.MutDoc('icc', 6000, 60000, .2), fuzz.FuzzPart('image', 28, 700, 1), fuzz.FuzzPart('icc', 14, 300, .6)], ['a hang is an execution of more than 60 s']
    if p == 'C11':
        a = docs.part(p); a.name = 'fonts'
        return 'exploration', [a, docs.asanpart(p, 600, 8000, .4)], ASSUME + ['lib/fontgen.py makes valid fonts (FreeType loads every glyph of them)']
    if p in docs.DEFS: return 'exploration', [docs.part(p)], ASSUME
    if p == 'C15':
        nt = lambda f: f.get('calls_rejected', 0) >= 2 and f.get('page')
        rule = docs.TEXT + 'non-trivial: at least 2 calls were refused and the document was written and compared'
        a = DocPart('docs', docs.C15, nt, rule, 3500, 40000)
        b = DocPart('docs-asan', docs.C15, nt, 'the same under AddressSanitizer and UBSan', 1500, 20000, flavor='asan')
        c = meta.Without('without', docs.C15, None, 'a history with invalid calls and the same history without the calls that failed write the same bytes (apart from /ID); '
                         'non-trivial: something failed and a file was written', 2500, 30000)
        return 'exploration', [a, b, c], ASSUME + MASSUME
    if p == 'C23':
        return INFO[p][0], [
            fault.Faults('faults', fault.C23, None, 'a random document is written once per fault: every file system call of the write fails, fails for good, is cut short, or is where the process dies, or the disk fills up; '
                         'non-trivial: the document can be written, at least 3 kills and 3 reported failures', 900, 12000),
            fault.Places('places', lambda r: dict(fault.C23(r), perr=0, sizes=[1, 3]), None, 'destinations of all kinds (directories, links, long names, stale temporary files...): only the destination changes, and only on success; '
                         'non-trivial: a write was judged', 1600, 10000, weight=.3)], ['the kernel performs rename atomically', 'a SIGSYS handler sees all file system calls of the write (x86-64 numbers)']
    if p == 'C24':
        return 'exploration', [
            meta.Inter('interleave', meta.C24, None, '2-3 documents whose calls are interleaved at random in one process, against each one made alone in another process; non-trivial: at least 2 files compared', 1200, 15000),
            meta.Mutate('mutate', meta.C24, None, 'after its last use each builder is modified, destroyed or its memory reused (random extra calls); the file must stay the same; non-trivial: written and more than 2 calls inserted', 2000, 25000),
            meta.Fresh('reuse', meta.C24R, None, 'the same calls made with contexts used again after their commit and with a new context for each; non-trivial: a file compared and a context used again', 1600, 20000),
            meta.Threads('threads', meta.C24, None, '2-4 documents built at the same time in threads of a native executor, with ThreadSanitizer for about 60% of the cases; results and files equal those made alone; non-trivial: at least 2 files compared', 600, 6000),
        ], MASSUME + ['ThreadSanitizer reports only races that the executed schedules expose (happens-before)']
    if p == 'C25':
        return 'exploration', [
            meta.Repeat('repeat', meta.C25, None, 'the same history in two processes (different heap contents, one with documents made before) with the same SOURCE_DATE_EPOCH writes the same bytes apart from exactly one /ID; '
                        'without SOURCE_DATE_EPOCH the same decoded objects apart from dates; non-trivial: a file was written', 3000, 40000),
            meta.Debug('debug', meta.C25, None, 'with CAPY_DEBUG_PDF the decoded objects, trailer and version are the same; non-trivial: a file was written', 3000, 40000),
        ], MASSUME
    if p == 'C26': return 'exploration', bind.parts(), ['the C functions are right (the other checks judge them)', 'documents are compared with SOURCE_DATE_EPOCH fixed; the /ID entry is ignored']
    if p == 'C27': return 'exploration', leak.parts(), ['mallinfo2 of the C library counts what is allocated (per-thread caches switched off)']
    raise SystemExit('no check for ' + p)
