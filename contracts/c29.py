"""C29: streamed zip archives are well-formed and lossless."""
from contracts.loops import *
import scarletio.streaming.zip_streaming.zip_stream as ZS, scarletio.streaming.zip_streaming.compression as ZC, scarletio.streaming.zip_streaming.file as ZF
import scarletio.streaming.zip_streaming.file_state as ZT, scarletio.streaming.zip_streaming.name_deduplication as ZN
PROOFS, proof = proof_registry()
TRUSTED = ['zlib: crc32 of a text continues over its pieces; what a compressor gives for all pieces and its flush inflates to them', 'names are encodable, below 65536 bytes and hold no zero character; the archive is below 2**64 bytes',
    'the names asked for end: of all indexes one gives a name not given before (a custom name reconstructor has to use its index)', 'a pattern of names gives None or a path, None or 1 to 9 digits, None or an extension (the default one compared natively)']
DESIGN = '''Each record builder is proved to give, for every field value, the bytes the ZIP format prescribes (APPNOTE 4.3, little-endian). The stream is proved, for every list of files
and every chunking, to be entry by entry: local header, name, data, descriptor; then the directory with, for every entry, its own name, CRC-32, sizes and the
offset where its local header was written; then the end records with the true count, offset and size. The states of the files are functions of the index, the invariant
"the entries before i are final, the others untouched" is carried as their representation and re-proved for an arbitrary entry in every iteration. A generator of names is
proved never to give a name twice, for any pattern and history.'''
def le(v, n): return z3.Concat(*[z3.Unit(v / (256 ** k) % 256) for k in range(n)])
def const(v, n): return [z3.Unit(z3.IntVal(v >> (8 * k) & 255)) for k in range(n)]
def fieldb(v, n): return z3.Concat(*const(v, n)) if isinstance(v, int) else le(v, n)
def record(sig, *fields): return z3.Concat(lit(sig), *[fieldb(v, n) for v, n in fields])
F4 = 0xffffffff
LAYOUT = {
    'local header': (30, lambda flags, method, mt, md, nlen: record('PK\3\4', (45, 2), (flags, 2), (method, 2), (mt, 2), (md, 2), (0, 4), (0, 4), (0, 4), (nlen, 2), (0, 2))),
    'descriptor': (24, lambda crc, sc, su: record('PK\7\x08', (crc, 4), (sc, 8), (su, 8))),
    'directory entry': (46, lambda flags, method, mt, md, crc, nlen: record('PK\1\2', (0x0a45, 2), (45, 2), (flags, 2), (method, 2), (mt, 2), (md, 2), (crc, 4), (F4, 4), (F4, 4), (nlen, 2), (28, 2), (0, 2), (0, 2), (0, 2), (0, 4), (F4, 4))),
    'extra field': (28, lambda su, sc, off: z3.Concat(*const(1, 2), *const(24, 2), le(su, 8), le(sc, 8), le(off, 8))),
    'zip64 end': (56, lambda count, off, size: record('PK\6\6', (44, 8), (0x0a45, 2), (45, 2), (0, 4), (0, 4), (count, 8), (count, 8), (size, 8), (off, 8))),
    'zip64 locator': (20, lambda off: record('PK\6\7', (0, 4), (off, 8), (1, 4))),
    'end': (22, lambda count: record('PK\5\6', (0, 2), (0, 2), (z3.If(count < 65535, count, 65535), 2), (z3.If(count < 65535, count, 65535), 2), (F4, 4), (F4, 4), (0, 2))),
}
REC = {k: z3.Function('record_' + k.replace(' ', '_'), *[I] * f.__code__.co_argcount, SEQ) for k, (n, f) in LAYOUT.items()}
def rec(ctx, k, *a): t = REC[k](*a); ctx.fact(ln(t) == LAYOUT[k][0]); return t

# ---- records
U16 = ('flags', 'method', 'mt', 'md')
def numbers(c, **bits):
    d = {k: c.int(k) for k in bits}
    for k, b in bits.items(): c.assume(0 <= d[k].t, d[k].t < 2 ** b)
    return d
def a_file(c, method): return inst(c, ZF.ZipStreamFile, compression_method=method)
def a_state(c, **kw):
    d = dict(crc=0, flags=0, modification_date=0, modification_time=0, name_binary=b'', offset=0, size_compressed=0, size_uncompressed=0); d.update(kw); return inst(c, ZT.ZipStreamFileState, **d)
def check_record(c, r, k, *a):
    no_raise(c, r); want = LAYOUT[k][1](*a)
    c.prove('its bytes', bv(isinstance(r.value, (SSeq, bytes))) if not isinstance(r.value, (SSeq, bytes)) else sterm(r.value) == want); c.prove('its length', ln(sterm(r.value)) == LAYOUT[k][0])
@proof('local header, directory entry: laid out as the format prescribes')
def _(c):
    d = numbers(c, flags=16, method=16, mt=16, md=16, crc=32); name = c.bytes('name'); c.assume(ln(name.t) < 65536)
    st = a_state(c, flags=d['flags'], modification_time=d['mt'], modification_date=d['md'], name_binary=name, crc=d['crc'], size_compressed=c.int('sc'), size_uncompressed=c.int('su'), offset=c.int('offset')); f = a_file(c, d['method'])
    v = {k: x.t for k, x in d.items()}; n = ln(name.t)
    check_record(c, attempt(c, ZS._create_local_file_header, f, st), 'local header', v['flags'], v['method'], v['mt'], v['md'], n)
    check_record(c, attempt(c, ZS._create_central_directory_file_header, f, st), 'directory entry', v['flags'], v['method'], v['mt'], v['md'], v['crc'], n)
@proof('descriptor, extra field: laid out as the format prescribes')
def _(c):
    d = numbers(c, crc=32, sc=64, su=64, offset=64); v = {k: x.t for k, x in d.items()}
    st = a_state(c, crc=d['crc'], size_compressed=d['sc'], size_uncompressed=d['su'], offset=d['offset'])
    check_record(c, attempt(c, ZS._create_data_descriptor, st), 'descriptor', v['crc'], v['sc'], v['su'])
    check_record(c, attempt(c, ZS._create_zip64_extra_field, st), 'extra field', v['su'], v['sc'], v['offset'])
@proof('end records: laid out as the format prescribes, for any number of files')
def _(c):
    d = numbers(c, count=64, off=64, size=64); v = {k: x.t for k, x in d.items()}
    check_record(c, attempt(c, ZS._create_zip64_end_of_central_directory_record, d['count'], d['off'], d['size']), 'zip64 end', v['count'], v['off'], v['size'])
    check_record(c, attempt(c, ZS._create_zip64_end_of_central_directory_locator, d['off']), 'zip64 locator', v['off'])
    check_record(c, attempt(c, ZS._create_end_of_central_directory_record, d['count']), 'end', v['count'])

# ---- files
class GivesI(Iface):
    """a generator of names"""
    name = 'names'
    def m_send(self, ctx, o, v):
        g = ctx.ghost; g.setdefault('sent', []).append(v)
        if v is None: return None
        return g['name given']
    def m_close(self, ctx, o): ctx.ghost['closed'] = ctx.ghost.get('closed', 0) + 1
GIVES = GivesI()
class DateI(Iface):
    name = 'date'
    def get(self, ctx, o, k, lo, hi):
        d = ctx.ghost.setdefault('date', {})
        if k not in d: d[k] = ctx.int(k); ctx.assume(lo <= d[k].t, d[k].t <= hi)
        return d[k]
    def get_year(self, ctx, o): return self.get(ctx, o, 'year', 1980, 2107)
    def get_month(self, ctx, o): return self.get(ctx, o, 'month', 1, 12)
    def get_day(self, ctx, o): return self.get(ctx, o, 'day', 1, 31)
    def get_hour(self, ctx, o): return self.get(ctx, o, 'hour', 0, 23)
    def get_minute(self, ctx, o): return self.get(ctx, o, 'minute', 0, 59)
    def get_second(self, ctx, o): return self.get(ctx, o, 'second', 0, 59)
DATE = DateI()
@proof('the state of a file before it is streamed: its name as given, marked when it is not ASCII, nothing counted')
def _(c):
    g = c.ghost; name = c.str('name'); f = inst(c, ZF.ZipStreamFile, name=name, modified_at=Opaque(c.fresh('modified', OBJ), DATE)); dedup = None
    if c.choose(2): dedup = Opaque(c.fresh('names', OBJ), GIVES); g['name given'] = c.str('given')
    r = attempt(c, ZT.ZipStreamFileState, f, dedup)
    if r.raised: c.prove('only for a name which cannot be encoded', bv(r.is_a(UnicodeEncodeError))); return
    st = r.value; used = name if dedup is None else g['name given']; fld = lambda k: c.it.getattr(st, k)
    if dedup is not None: c.prove('asked for once, with the name of the file', bv(len(g.get('sent', [])) == 1) if len(g.get('sent', [])) != 1 else eqv(c, g['sent'][0], name))
    c.prove('the name in UTF-8', eqv(c, fld('name_binary'), c.it.call(c.it.getattr(used, 'encode'), ['utf8'], {})))
    c.prove('sizes are streamed behind the data; the UTF-8 mark when the name is not ASCII', eqv(c, fld('flags'), SInt(z3.If(ln(sterm(fld('name_binary'))) == ln(used.t), 8, 8 + 2048))))
    c.prove('nothing is counted yet', z3.And(*[eqv(c, fld(k), 0) for k in ('crc', 'size_compressed', 'size_uncompressed', 'offset')]))
    d = {k: v.t for k, v in g['date'].items()}
    for k in ('modification_date', 'modification_time'): c.prove('16 bits', z3.And(0 <= iterm(fld(k)), iterm(fld(k)) < 65536))
    c.prove('the day of the change', iterm(fld('modification_date')) == (d['year'] - 1980) * 512 + d['month'] * 32 + d['day']); c.prove('the time of the change', iterm(fld('modification_time')) == d['hour'] * 2048 + d['minute'] * 32 + d['second'] / 2)
@proof('a file: only supported methods; each method has its compressor')
def _(c):
    m = c.int('method'); gen = Opaque(c.fresh('generator', OBJ), heap.ANY); date = Opaque(c.fresh('date', OBJ), DATE); name = c.str('name')
    r = attempt(c, ZF.ZipStreamFile, name, gen, compression_method=m, modified_at=date)
    if r.raised: c.prove('a runtime error, for methods other than none and deflate', z3.And(bv(r.is_a(RuntimeError)), m.t != 0, m.t != 8)); return
    c.prove('none or deflate', z3.Or(m.t == 0, m.t == 8)); fld = lambda k: c.it.getattr(r.value, k)
    c.prove('what was given', z3.And(eqv(c, fld('compression_method'), m), bv(fld('async_generator') is gen and fld('modified_at') is date), eqv(c, fld('name'), name)))
    s = attempt(c, ZC.select_compressor_type, m); no_raise(c, s)
    c.prove('its compressor', z3.If(m.t == 8, bv(s.value is ZC.CompressorZlibDeflate), bv(s.value is ZC.CompressorBase)))

# ---- compressors
CRC = z3.Function('crc_of', SEQ, I)
class CrcI(Iface):
    name = 'crc32'
    def call(self, ctx, o, args, kwargs):
        g = ctx.ghost; ctx.prove('continues the checksum of what came before', eqv(ctx, args[1] if len(args) > 1 else 0, SInt(CRC(g['before'])))); ctx.prove('over the chunk', eqv(ctx, args[0], g['chunk'])); g['summed'] = True
        t = CRC(cat(g['before'], sterm(args[0]))); ctx.fact(z3.And(0 <= t, t < 2 ** 32)); return SInt(t)
class DeflateI(Iface):
    name = 'deflater'
    def m_compress(self, ctx, o, x): ctx.prove('compresses the chunk', eqv(ctx, x, ctx.ghost['chunk'])); v = ctx.ghost['compressed'] = ctx.bytes('compressed'); return v
    def m_flush(self, ctx, o, mode=4): ctx.prove('ends the stream', bv(mode == 4)); v = ctx.ghost['compressed'] = ctx.bytes('flushed'); return v
class NewDeflateI(Iface):
    name = 'zlib.compressobj'
    def call(self, ctx, o, args, kwargs): ctx.prove('a raw deflate stream', bv(len(args) >= 3 and args[1] == 8 and isinstance(args[2], int) and -15 <= args[2] <= -9 or kwargs.get('wbits') == -15)); return Opaque(ctx.fresh('deflater', OBJ), DEFLATER)
DEFLATER = DeflateI()
for _k, _n in ((0, 'stored'), (1, 'deflated')):
    @proof(f'{_n} data: what a chunk becomes, its checksum and both sizes')
    def _(c, k=_k):
        g = c.ghost; c.fact(CRC(z3.Empty(SEQ)) == 0); before = g['before'] = c.fresh('before', SEQ); made = c.fresh('made', SEQ); g['chunk'] = c.bytes('chunk'); x = g['chunk'].t
        if not k: c.assume(made == before)
        g['globals'] = {(None, 'compute_crc32'): Opaque(c.fresh('crc32', OBJ), CrcI()), (None, 'create_zlib_compressor'): Opaque(c.fresh('new', OBJ), NewDeflateI())}
        cls = (ZC.CompressorBase, ZC.CompressorZlibDeflate)[k]
        comp = attempt(c, cls); no_raise(c, comp); comp = comp.value
        st = a_state(c, crc=SInt(CRC(before)), size_uncompressed=SInt(ln(before)), size_compressed=SInt(ln(made))); fld = lambda k: c.it.getattr(st, k)
        r = attempt(c, c.it.getattr(comp, 'process'), st, g['chunk']); no_raise(c, r); out = sterm(r.value)
        c.prove('what it becomes', out == (x if not k else g['compressed'].t)); before, made = cat(before, x), cat(made, out)
        c.prove('summed up', bv('summed' in g)); c.prove('checksum and sizes', z3.And(eqv(c, fld('crc'), SInt(CRC(before))), eqv(c, fld('size_uncompressed'), SInt(ln(before))), eqv(c, fld('size_compressed'), SInt(ln(made)))))
        g.pop('compressed', None)
        r = attempt(c, c.it.getattr(comp, 'tail'), st); no_raise(c, r); out = sterm(r.value); made = cat(made, out)
        c.prove('the rest', out == (g['compressed'].t if k else z3.Empty(SEQ)))
        c.prove('checksum and sizes at the end', z3.And(eqv(c, fld('crc'), SInt(CRC(before))), eqv(c, fld('size_uncompressed'), SInt(ln(before))), eqv(c, fld('size_compressed'), SInt(ln(made)))))

# ---- the stream
FILE = z3.Function('file', I, OBJ); STATE = z3.Function('state', I, OBJ); PLACE = z3.Function('place', OBJ, I)
NAME = z3.Function('name_of', I, SEQ); FIXED = {k: z3.Function(k + '_of', I, I) for k in U16}
ITEMS = z3.Function('chunks_of', I, I); ITEM = z3.Function('chunk_of', I, I, SEQ); FED = z3.Function('content_before', I, I, SEQ); DATA = z3.Function('data_of', I, SEQ)
ENT = z3.Function('entries_before', I, SEQ); DIR = z3.Function('directory_before', I, SEQ)
def content(i): return FED(i, ITEMS(i))
FINAL = {'crc': lambda i: CRC(content(i)), 'size_compressed': lambda i: ln(DATA(i)), 'size_uncompressed': lambda i: ln(content(i)), 'offset': lambda i: ln(ENT(i))}
def read(g, k, j):
    base, over = g['states']; v = z3.If(j < base, FINAL[k](j), 0)
    for f, i, x in over:
        if f == k: v = z3.If(j == i, x, v)
    return v
def write(g, k, j, x): base, over = g['states']; g['states'] = (base, over + [(k, j, x)])
class FileI(Iface):
    name = 'file'
    def get_compression_method(self, ctx, o): return SInt(FIXED['method'](PLACE(o.t)))
    def get_async_generator(self, ctx, o): g = Opaque(ctx.fresh('content', OBJ), CHUNKS); g.extra = {'of': PLACE(o.t)}; return g
class ChunksI(Iface):
    name = 'content'
    def async_items(self, ctx, o):
        i = o.extra['of']; ctx.ghost['file'] = i; items = Opaque(ctx.fresh('chunks', OBJ), ITEMLIST); items.extra = {'of': i}; return items, None
class ItemListI(Iface):
    name = 'chunks'
    def symiter(self, ctx, o): i = o.extra['of']; ctx.fact(ITEMS(i) >= 0); return SymIter(ITEMS(i), lambda j: SSeq(ITEM(i, j), 'bytes'))
def state_field(k):
    def get(self, ctx, o): return SInt(read(ctx.ghost, k, PLACE(o.t)))
    def set_(self, ctx, o, v): write(ctx.ghost, k, PLACE(o.t), iterm(v))
    return get, set_
class StateI(Iface):
    name = 'state of a file'
    def get_name_binary(self, ctx, o): return SSeq(NAME(PLACE(o.t)), 'bytes')
for _f in FINAL:
    _g, _s = state_field(_f); setattr(StateI, 'get_' + _f, _g); setattr(StateI, 'set_' + _f, _s)
class CompI(Iface):
    """what the proofs of the compressors show"""
    name = 'compressor'
    def feed(self, ctx, st, x, tail):
        g = ctx.ghost; i = PLACE(st.t); ctx.prove('the state of the file being streamed', i == g['file'])
        if not tail: g['fed'] = cat(g['fed'], x)
        stored = FIXED['method'](i) == 0; out = ctx.fresh('out_of_compressor', SEQ)
        ctx.assume(z3.Implies(stored, out == (z3.Empty(SEQ) if tail else x))); g['made'] = cat(g['made'], out)
        c0 = read(g, 'size_compressed', i)
        if not tail:
            ctx.prove('the checksum is up to date', read(g, 'crc', i) == CRC(g['fed0'])); write(g, 'crc', i, CRC(g['fed'])); write(g, 'size_uncompressed', i, read(g, 'size_uncompressed', i) + ln(x)); g['fed0'] = g['fed']
        write(g, 'size_compressed', i, c0 + ln(out))
        if tail: ctx.assume(DATA(i) == g['made'])        # what the data of a file is: all its compressor gave
        return SSeq(out, 'bytes')
    def m_process(self, ctx, o, st, x): return self.feed(ctx, st, sterm(x), False)
    def m_tail(self, ctx, o, st): ctx.prove('ended once', bv(not ctx.ghost.get('ended'))); ctx.ghost['ended'] = True; return self.feed(ctx, st, None, True)
class CompTypeI(Iface):
    name = 'type of compressor'
    def call(self, ctx, o, args, kwargs): g = ctx.ghost; g['fed'] = g['made'] = g['fed0'] = z3.Empty(SEQ); g['ended'] = False; return Opaque(ctx.fresh('compressor', OBJ), COMP)
FILEI = FileI(); CHUNKS = ChunksI(); ITEMLIST = ItemListI(); STATEI = StateI(); COMP = CompI(); COMPTYPE = CompTypeI()
class FilesI(Iface):
    name = 'files'
    def symiter(self, ctx, o):
        n = ctx.ghost['n']
        def get(i): ctx.fact(z3.Implies(z3.And(0 <= i, i < n), PLACE(FILE(i)) == i)); ctx.ghost['made for'] = i; return Opaque(FILE(i), FILEI)
        return SymIter(n, get)
FILES = FilesI()
PAIR = TupleC((ObjC(FILEI), ObjC(STATEI)))
def pair(i): return PAIR.sort.constructor(0)(FILE(i), STATE(i))
@proof('the stream: entry by entry, then a directory of exactly these entries, then the end records')
def _(c):
    g = c.ghost; z = z3.IntVal(0); n = g['n'] = c.fresh('files', I); c.assume(0 <= n, n < 2 ** 64); k = c.fresh('k', I); c.assume(0 <= k)
    g['states'] = (z, []); g['out'] = z3.Empty(SEQ); c.fact(CRC(z3.Empty(SEQ)) == 0)
    which = c.choose(3); names = None if which == 0 else Opaque(c.fresh('names', OBJ), GIVES)
    def fx(i): return [FIXED[u](i) for u in U16]
    def of(ctx, file, st=None):
        i = PLACE(file.t)
        if st is not None: ctx.prove('with its own state', PLACE(st.t) == i)
        return i
    def new_state(ctx, cls, file, dedup):
        i = g['made for']; ctx.prove('made for this file, with the generator of names', z3.And(file.t == FILE(i), bv(dedup is names))); ctx.prove('which is started, and not closed', bv(names is None or g.get('sent') == [None] and 'closed' not in g))
        ctx.fact(PLACE(STATE(i)) == i); return Opaque(STATE(i), STATEI)
    use(c, ZT.ZipStreamFileState.__new__, new_state)
    use(c, ZS._create_local_file_header, lambda ctx, f, st: (lambda i: SSeq(rec(ctx, 'local header', *fx(i), ln(NAME(i))), 'bytes'))(of(ctx, f, st)))
    use(c, ZS._create_data_descriptor, lambda ctx, st: (lambda i: SSeq(rec(ctx, 'descriptor', read(g, 'crc', i), read(g, 'size_compressed', i), read(g, 'size_uncompressed', i)), 'bytes'))(PLACE(st.t)))
    use(c, ZS._create_central_directory_file_header, lambda ctx, f, st: (lambda i: SSeq(rec(ctx, 'directory entry', *fx(i), read(g, 'crc', i), ln(NAME(i))), 'bytes'))(of(ctx, f, st)))
    use(c, ZS._create_zip64_extra_field, lambda ctx, st: (lambda i: SSeq(rec(ctx, 'extra field', read(g, 'size_uncompressed', i), read(g, 'size_compressed', i), read(g, 'offset', i)), 'bytes'))(PLACE(st.t)))
    use(c, ZS._create_zip64_end_of_central_directory_record, lambda ctx, a, b, s: SSeq(rec(ctx, 'zip64 end', iterm(a), iterm(b), iterm(s)), 'bytes'))
    use(c, ZS._create_zip64_end_of_central_directory_locator, lambda ctx, a: SSeq(rec(ctx, 'zip64 locator', iterm(a)), 'bytes'))
    use(c, ZS._create_end_of_central_directory_record, lambda ctx, a: SSeq(rec(ctx, 'end', iterm(a)), 'bytes'))
    def select(ctx, m): ctx.prove('by the method of the file', eqv(ctx, m, SInt(FIXED['method'](g['current'])))); return Opaque(ctx.fresh('type', OBJ), COMPTYPE)
    use(c, ZC.select_compressor_type, select)
    use(c, ZN.name_deduplicator_default, lambda ctx, pattern, rebuild: (ctx.prove('the default pattern and names', bv(pattern is ZN.NAME_DEDUPLICATOR_REGEX_PATTERN_DEFAULT and rebuild is ZN.name_deduplicator_name_reconstructor_default)), names)[1])
    # the pairs: element by element for an arbitrary k, so for every one
    def inv0(L): l = L._comp.as_term(PAIR); return {'as many': ln(l) == L._i, 'each file with its state': z3.Implies(z3.And(k < L._i), l[k] == pair(k))}
    loop(c, 'stream_zip', 1, Loop(inv=inv0, lists={'_comp': PAIR}))
    def known(L):
        i = L._i; l = L._src.seq; inside = z3.And(0 <= i, i < n)
        L.ctx.fact(z3.Implies(inside, z3.And(l[i] == pair(i), PLACE(FILE(i)) == i, PLACE(STATE(i)) == i))); return i, inside
    def state_inv(L): return {'the states of an arbitrary file': z3.And(*[read(g, f, k) == z3.If(k < L._i, FINAL[f](k), 0) for f in FINAL])}
    def inv1(L): return {'entries so far': z3.And(g['out'] == ENT(L._i)), 'the offset': L.t('offset') == ln(ENT(L._i)), **state_inv(L)}
    def hav1(L): g['out'] = L.ctx.fresh('out', SEQ); g['states'] = (L._i, [])
    def head1(L):
        i, inside = known(L); g['current'] = i; L.ctx.fact(ITEMS(i) >= 0); L.ctx.fact(FED(i, z) == z3.Empty(SEQ)); sc, su = ln(DATA(i)), ln(content(i))
        L.ctx.fact(z3.Implies(inside, ENT(i + 1) == z3.Concat(ENT(i), rec(L.ctx, 'local header', *fx(i), ln(NAME(i))), NAME(i), DATA(i), rec(L.ctx, 'descriptor', CRC(content(i)), sc, su))))
    c.fact(ENT(z) == z3.Empty(SEQ)); c.fact(DIR(z) == z3.Empty(SEQ))
    loop(c, 'stream_zip', 2, Loop(inv=inv1, havoc=hav1, on_head=head1))
    def entry2(L): g['out0'] = g['out']; g['over0'] = g['states'][1]; L.ctx.prove('nothing is compressed before', bv('fed' in g) if 'fed' not in g else z3.And(g['fed'] == z3.Empty(SEQ), g['made'] == z3.Empty(SEQ)))
    def inv2(L):
        i = g['file']; j = L._i
        return {'the file being streamed': i == g['current'], 'fed so far': z3.And(g['fed'] == FED(i, j), g['fed0'] == g['fed']), 'written so far': g['out'] == z3.Concat(g['out0'], g['made']), 'checksum': read(g, 'crc', i) == CRC(g['fed']),
            'sizes': z3.And(read(g, 'size_uncompressed', i) == ln(g['fed']), read(g, 'size_compressed', i) == ln(g['made'])), 'stored data is the content': z3.Implies(FIXED['method'](i) == 0, g['made'] == g['fed']),
            'the states of the other files': z3.Implies(k != i, z3.And(*[read(g, f, k) == z3.If(k < i, FINAL[f](k), 0) for f in FINAL])), 'the offset stays': read(g, 'offset', i) == ln(ENT(i))}
    def hav2(L):
        i = g['file']
        for nm in ('fed', 'made', 'out'): g[nm] = L.ctx.fresh(nm, SEQ)
        g['fed0'] = g['fed']; base = g['states'][0]; g['states'] = (base, [(f, i, L.ctx.fresh(f, I)) for f in FINAL])
    def head2(L): i, j = g['file'], L._i; L.ctx.fact(z3.Implies(j < ITEMS(i), FED(i, j + 1) == z3.Concat(FED(i, j), ITEM(i, j))))
    loop(c, 'stream_zip', 3, Loop(inv=inv2, havoc=hav2, on_entry=entry2, on_head=head2))
    def entry3(L): g['ent'] = g['out']
    def inv3(L): return {'directory so far': g['out'] == z3.Concat(g['ent'], DIR(L._i)), 'its size': L.t('central_directory_size') == 74 * (n - L._i) + ln(DIR(L._i))}
    def hav3(L): g['out'] = L.ctx.fresh('out', SEQ)
    def head3(L):
        i, inside = known(L); f = FINAL
        L.ctx.fact(z3.Implies(inside, DIR(i + 1) == z3.Concat(DIR(i), rec(L.ctx, 'directory entry', *fx(i), f['crc'](i), ln(NAME(i))), NAME(i), rec(L.ctx, 'extra field', f['size_uncompressed'](i), f['size_compressed'](i), f['offset'](i)))))
    loop(c, 'stream_zip', 4, Loop(inv=inv3, havoc=hav3, on_entry=entry3, on_head=head3))
    def piece(ctx, v): ctx.prove('bytes', bv(isinstance(v, (SSeq, bytes)))); g['out'] = cat(g['out'], sterm(v))
    c.await_handler = lambda ctx, v: v
    c.yield_stack.append(piece)
    try: c.it.run_gen(c.it.call(ZS.stream_zip, [Opaque(c.fresh('files', OBJ), FILES)], {'name_deduplicator': (None, names, ...)[which]}))
    except PyExc as e: c.prove('it does not fail', z3.BoolVal(False)); return
    finally: c.yield_stack.pop()
    N, off, size = n, ln(ENT(n)), ln(DIR(n))
    c.prove('entries, directory, end records', g['out'] == z3.Concat(ENT(n), DIR(n), rec(c, 'zip64 end', N, off, size), rec(c, 'zip64 locator', off + size), rec(c, 'end', N)))
    c.prove('the names are closed', bv(names is None or g.get('closed') == 1))

# ---- names
class MapI(Iface):
    """any dictionary"""
    name = 'collected'
    def value(self, ctx): return (ctx.int('counter'), None if ctx.choose(2) else Opaque(ctx.fresh('taken', OBJ), TAKEN))
    def m_get(self, ctx, o, k, d=None): return self.value(ctx) if ctx.choose(2) else d
    def getitem(self, ctx, o, k):
        if ctx.choose(2): raise PyExc(Inst(ctx, KeyError, {'args': ()}))
        return self.value(ctx)
    def setitem(self, ctx, o, k, v): pass
    def contains(self, ctx, o, k): return ctx.fresh('known', B)
class TakenI(Iface):
    """any set of numbers"""
    name = 'taken'
    types = (set,)
    def contains(self, ctx, o, k): return ctx.fresh('is_taken', B)
    def truthy(self, ctx, o): return ctx.fresh('some_taken', B)
    def m_add(self, ctx, o, x): pass
    def m_discard(self, ctx, o, x): pass
    def m_remove(self, ctx, o, x):
        if ctx.choose(2): raise PyExc(Inst(ctx, KeyError, {'args': ()}))
class NamesI(Iface):
    name = 'names given'
    types = (set,)
    def contains(self, ctx, o, x): return z3.Select(ctx.ghost['names'], sterm(x))
    def m_add(self, ctx, o, x): ctx.ghost['names'] = z3.Store(ctx.ghost['names'], sterm(x), z3.BoolVal(True))
class PatternI(Iface):
    name = 'pattern of names'
    def m_fullmatch(self, ctx, o, x): return None if ctx.choose(2) else Opaque(ctx.fresh('match', OBJ), MATCH)
class MatchI(Iface):
    name = 'match'
    def m_groups(self, ctx, o):
        g = ctx.ghost; idx = None
        if ctx.choose(2): idx = ctx.str('digits'); v = ctx.fresh('index', I); ctx.assume(v >= 0); g['digits'] = (idx, v)
        return (ctx.str('path'), idx, ctx.str('extension') if ctx.choose(2) else None)
class BuildI(Iface):
    name = 'reconstructor'
    def call(self, ctx, o, args, kwargs): return ctx.str('rebuilt')
class IntI(Iface):
    name = 'int'
    def call(self, ctx, o, args, kwargs): ctx.prove('of the digits', bv(args[0] is ctx.ghost['digits'][0])); return SInt(ctx.ghost['digits'][1])
MAP = MapI(); TAKEN = TakenI(); NAMES = NamesI(); PATTERN = PatternI(); MATCH = MatchI(); BUILD = BuildI()
@proof('no name is given twice')
def _(c):
    g = c.ghost; w = c.str('some_name').t; g['given'] = z3.BoolVal(False); g['globals'] = {(None, 'int'): Opaque(c.fresh('int', OBJ), IntI())}
    g['names'] = z3.K(SEQ, z3.BoolVal(False))
    def entry(L):
        fr = L.__dict__['frame']
        for nm, v in list(fr.locals.items()):
            if isinstance(v, LSet): L.ctx.prove('a new set is empty', bv(True)); fr.locals[nm] = Opaque(L.ctx.fresh(nm, OBJ), NAMES)
            elif isinstance(v, LDict): fr.locals[nm] = Opaque(L.ctx.fresh(nm, OBJ), MAP)
    def inv(L): return {'exactly the names given are known': z3.Select(g['names'], w) == g['given']}
    def hav(L): g['names'] = L.ctx.fresh('names', z3.ArraySort(SEQ, B)); g['given'] = L.ctx.fresh('given', B)
    def on_yield(ctx, v):
        if v is None: ctx.prove('only the first wait gives nothing', bv('started' not in g)); g['started'] = True
        else: ctx.prove('a name not given before', z3.Implies(sterm(v) == w, z3.Not(g['given']))); g['given'] = z3.Or(g['given'], sterm(v) == w)
        return ctx.str('asked')
    def taken(ctx): return Opaque(ctx.fresh('taken', OBJ), TAKEN)
    def there(L): return {'something is taken': bv(isinstance(L.taken_values, (Opaque, LSet)))}
    loop(c, 'name_deduplicator_default', 0, Loop(inv=inv, havoc=hav, on_entry=entry))
    loop(c, 'name_deduplicator_default', 1, Loop(inv=there, shapes={'taken_values': taken}))
    loop(c, 'name_deduplicator_default', 2, Loop(inv=lambda L: {}))
    c.yield_stack.append(on_yield)
    try: c.it.run_gen(c.it.call(ZN.name_deduplicator_default, [Opaque(c.fresh('pattern', OBJ), PATTERN), Opaque(c.fresh('rebuild', OBJ), BUILD)], {}))
    except PyExc as e: c.prove('it does not fail', z3.BoolVal(False))
    finally: c.yield_stack.pop()

# ---------------------------------------------------------------- native
RULE = 'file lists with clashing names (indexes, extensions, paths, line breaks, non-ASCII), contents in random chunks, stored and deflated, read back with zipfile and by record; distinct by content'
SEARCH_S = 8
STEMS = ['a', 'a', 'a', 'b', '', 'é', 'a b', 'a\nb', 'a/b', 'a/', '.', 'a (1)', 'a (x)', ' (1)']
def name_of(rng):
    n = rng.choice(STEMS)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])): n += rng.choice([' (1)', ' (2)', ' (0)', ' (01)', ' (3)', '.t', '.t', '.', ' (\u0661)', ' (%s)' % ('9' * rng.choice([9, 10, 20, 4400])) if rng.random() < .1 else ' (4)'])
    return n
def cases(rng, part, parts):
    while True:
        pool = [name_of(rng) for _ in range(rng.choice([1, 2, 3]))]
        fs = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
            chunks = [bytes(rng.choice([rng.randrange(256), 65]) for _ in range(rng.choice([0, 1, 3, 40, 300]))).decode('latin-1') for _ in range(rng.choice([0, 1, 2, 4]))]
            fs.append([rng.choice(pool) if rng.random() < .7 else name_of(rng), chunks, rng.choice([0, 8]), [rng.randint(1980, 2107), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]])
        yield [rng.choice(['default', 'default', 'none', 'own']), fs, rng.random() < .3]
        if rng.random() < .0005: yield ['count', rng.choice([65534, 65535, 65536, 70000]), False]
class Source:
    def __init__(self, chunks, view): self.chunks = chunks; self.view = view
    async def __aiter__(self):
        for x in self.chunks: yield memoryview(x) if self.view else x
def run_stream(agen):
    out = []
    async def go():
        async for x in agen: out.append(bytes(x))
    co = go()
    try: co.send(None)
    except StopIteration: return out
    raise RuntimeError('it waits')
def check_case(d):
    import zipfile, io, struct, datetime, zlib
    mode, fs, view = d
    if mode == 'count':
        fs = [['f%d' % k, [], 0, [1980, 1, 1, 0, 0, 0]] for k in range(fs)]; mode = 'none'
    files = [ZF.ZipStreamFile(n, Source([x.encode('latin-1') for x in ch], view), compression_method=m, modified_at=datetime.datetime(*t)) for n, ch, m, t in fs]
    kw = {} if mode == 'default' else {'name_deduplicator': None} if mode == 'none' else {'name_deduplicator': ZN.name_deduplicator_default(ZN.NAME_DEDUPLICATOR_REGEX_PATTERN_DEFAULT, ZN.name_deduplicator_name_reconstructor_default)}
    try: out = b''.join(run_stream(ZS.create_zip_stream_resource(files, **kw).__aiter__()))
    except Exception as e: return f'{len(fs)} files: {e!r}'
    try: z = zipfile.ZipFile(io.BytesIO(out))
    except Exception as e: return f'not an archive: {e!r}'
    infos = z.infolist()
    if len(infos) != len(fs): return f'{len(fs)} files, {len(infos)} entries'
    pos = 0; names = []
    for (n, ch, m, t), i in zip(fs, infos):
        want = b''.join(x.encode('latin-1') for x in ch)
        if mode == 'none' and i.orig_filename != n: return f'name {n!r}: {i.orig_filename!r}'
        names.append(i.orig_filename)
        if i.header_offset != pos: return f'{n!r}: offset {i.header_offset}, it is at {pos}'
        try: got = z.read(i)
        except Exception as e: return f'{n!r}: {e!r}'
        if got != want: return f'{n!r}: content {got[:40]!r}, it was {want[:40]!r}'
        if i.CRC != zlib.crc32(want) or i.file_size != len(want) or i.compress_type != m: return f'{n!r}: checksum, size or method'
        if i.date_time != (*t[:5], t[5] // 2 * 2): return f'{n!r}: time {i.date_time}, it is {t}'
        sig, ver, fl, meth, mt, md, crc, cs, us, nl, xl = struct.unpack_from('<4sHHHHHLLLHH', out, pos)
        if sig != b'PK\3\4' or out[pos + 30:pos + 30 + nl] != i.orig_filename.encode() or xl or meth != m or crc or cs or us or bool(fl & 2048) != (not i.orig_filename.isascii()): return f'{n!r}: local header'
        end = pos + 30 + nl + i.compress_size
        data = out[pos + 30 + nl:end]
        if (data if m == 0 else zlib.decompress(data, -15)) != want: return f'{n!r}: data'
        if struct.unpack_from('<4sLQQ', out, end) != (b'PK\7\x08', i.CRC, i.compress_size, len(want)): return f'{n!r}: descriptor'
        pos = end + 24
    if mode != 'none' and len(set(names)) != len(names): return f'names {[f[0] for f in fs]!r} became {names!r}'
    if z.start_dir != pos: return 'start of the directory'
    e = struct.unpack_from('<4sQHHIIQQQQ', out, len(out) - 98); l = struct.unpack_from('<4sLQL', out, len(out) - 42); s = struct.unpack_from('<4sHHHHLLH', out, len(out) - 22)
    size = len(out) - 98 - pos; n = len(fs)
    if e != (b'PK\6\6', 44, 2629, 45, 0, 0, n, n, size, pos): return f'zip64 end {e}'
    if l != (b'PK\6\7', 0, pos + size, 1): return f'zip64 locator {l}'
    if s[:3] != (b'PK\5\6', 0, 0) or s[3:5] not in ((min(n, 65535),) * 2, (65535,) * 2) or s[7]: return f'end {s}'
    return None
def shrink(d):
    mode, fs, view = d
    if mode == 'count': return
    for k in range(len(fs)): yield [mode, fs[:k] + fs[k + 1:], view]
    for k in range(len(fs)):
        n, ch, m, t = fs[k]
        for j in range(len(ch)): yield [mode, fs[:k] + [[n, ch[:j] + ch[j + 1:], m, t]] + fs[k + 1:], view]
    if view: yield [mode, fs, False]
