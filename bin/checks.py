"""One function per property."""
import os
LEVEL = {}
CHECKS = {}
HOOKS = dict(guard='none', enable='No hooks: the drivers use the public API of the library as built from /repo.', source_commits=[])
TECH = {'default': 'TLA+ specification; TLC trace validation of recorded executions + TLC model checking of the design'}
NOTE = {'default': 'Every recorded call of the generated histories is checked by TLC against the TLA+ specification; the design model is '
                   'checked exhaustively within small constants. Trusts TLC, the driver\'s encoding of arguments and results, and the sampled histories.'}
def check(pid, level='model_checking'):
    def deco(f): CHECKS[pid] = f; LEVEL[pid] = level; return f
    return deco

def traces(c, exe, n, length, files, mode=None, extra=None, timeout=300, tag='', scratch=None):
    """Runs a driver `files` times with different seeds; returns the trace files."""
    outs = []
    def one(i):
        o = c.path('%s%s-%d.ndjson' % (os.path.basename(exe), tag, i))
        args = ['--seed', c.seed * 1000 + i, '--n', n, '--len', length, '--out', o]
        if mode: args += ['--mode', mode]
        if extra is not None: args += ['--extra', extra]
        if scratch: args += ['--scratch', scratch]
        c.run(exe, args, timeout=timeout)
        return o
    return list(c.pool.map(one, range(files)))

@check('C01')
def c01(c):
    exe = c.build('plain', ['drv_array'])['drv_array']
    fs = traces(c, exe, c.scale(500, 4000), 50, c.scale(3, 9))
    c.mc('Storage', 'Storage' if c.quick else 'StorageDeep')
    c.validate('ArrayTrace', fs, corrupt='st')

@check('C02')
def c02(c):
    exe = c.build('plain', ['drv_string'])['drv_string']
    fs = traces(c, exe, c.scale(500, 4000), 60, c.scale(3, 9))
    c.mc('Storage', 'Storage' if c.quick else 'StorageDeep')
    c.validate('StringTrace', fs, corrupt='st')

@check('C04')
def c04(c):
    exe = c.build('plain', ['drv_bitarray'])['drv_bitarray']
    fs = traces(c, exe, c.scale(500, 4000), 60, c.scale(3, 9))
    c.validate('BitArrayTrace', fs, corrupt='st')

@check('C05')
def c05(c):
    exe = c.build('plain', ['drv_bitset'])['drv_bitset']
    fs = traces(c, exe, c.scale(500, 4000), 50, c.scale(6, 12))
    c.validate('BitSetTrace', fs, corrupt='st')

@check('C06')
def c06(c):
    exe = c.build('plain', ['drv_path'])['drv_path']
    fs = traces(c, exe, c.scale(300, 2500), 60, c.scale(6, 12), mode='hist')
    c.validate('PathTrace', fs, corrupt='st')
    fs = traces(c, exe, c.scale(80, 1000), 60, c.scale(3, 6), mode='arc', tag='-arc')
    c.validate('ArcTrace', fs, corrupt='v')

@check('C07')
def c07(c):
    exe = c.build('plain', ['drv_gradient'])['drv_gradient']
    fs = traces(c, exe, c.scale(300, 2500), 50, c.scale(6, 12))
    c.validate('GradientTrace', fs, corrupt='st')

@check('C08')
def c08(c):
    exe = c.build('plain', ['drv_fontset'])['drv_fontset']
    for m in ('feat', 'var'):
        fs = traces(c, exe, c.scale(400, 3000), 60, c.scale(3, 8), mode=m, tag='-' + m)
        c.validate('FontSetTrace', fs, corrupt='st')

@check('C03')
def c03(c):
    exes = c.build('plain', ['drv_var'])
    fs = traces(c, exes['drv_var'], c.scale(500, 4000), 60, c.scale(4, 10), mode='iso', tag='-iso')
    fs += traces(c, exes['drv_var'], c.scale(300, 2000), 60, c.scale(1, 4), mode='stroke', tag='-stroke')
    c.validate('VarTrace', fs, corrupt='st')

@check('C09')
def c09(c):
    exe = c.build('plain', ['drv_var'])['drv_var']
    fs = traces(c, exe, c.scale(500, 4000), 60, c.scale(6, 16), tag='-hist')
    c.validate('VarTrace', fs, corrupt='st')
    fs = traces(c, exe, c.scale(500, 3000), 50, c.scale(2, 6), mode='prop', tag='-prop')
    c.validate('PropTrace', fs, corrupt='st')

@check('C12')
def c12(c):
    exe = c.build('plain', ['drv_matrix'])['drv_matrix']
    fs = traces(c, exe, c.scale(300, 2500), 60, c.scale(6, 12))
    c.validate('MatrixTrace', fs, corrupt='st')

@check('C11')
def c11(c):
    exe = c.build('plain', ['drv_ctx'])['drv_ctx']
    fs = traces(c, exe, c.scale(150, 1500), 60, c.scale(6, 12))
    c.validate('ContextTrace', fs, corrupt='st')

@check('C27')
def c27(c):
    exe = c.build('plain', ['drv_fill'])['drv_fill']
    fs = traces(c, exe, c.scale(60, 1000), 12, c.scale(6, 12))
    c.validate('FillTrace', fs, corrupt='al', by=90)

@check('C26')
def c26(c):
    exe = c.build('plain', ['drv_geom'])['drv_geom']
    fs = traces(c, exe, c.scale(150, 1500), 40, c.scale(6, 12))
    c.validate('HitTrace', fs, corrupt='hit')

@check('C14')
def c14(c):
    exe = c.build('plain', ['drv_canvas'])['drv_canvas']
    fs = traces(c, exe, c.scale(120, 1200), 40, c.scale(6, 12), mode='solid')
    c.validate('CanvasTrace', fs, corrupt='px')

@check('C13')
def c13(c):
    exe = c.build('plain', ['drv_canvas'])['drv_canvas']
    fs = traces(c, exe, c.scale(120, 1200), 40, c.scale(6, 12), mode='clip')
    c.validate('CanvasTrace', fs, corrupt='px')

@check('C15')
def c15(c):
    exe = c.build('plain', ['drv_canvas'])['drv_canvas']
    fs = traces(c, exe, c.scale(120, 1200), 40, c.scale(6, 12), mode='comp')
    c.validate('CanvasTrace', fs, corrupt='px')
    exe = c.build('plain', ['drv_comp'])['drv_comp']
    fs = traces(c, exe, c.scale(500, 3000), 40, c.scale(6, 12), tag='-op')
    c.validate('CompTrace', fs, corrupt='rc')

@check('C16')
def c16(c):
    exe = c.build('dbg', ['drv_twin'])['drv_twin']
    fs = traces(c, exe, c.scale(60, 600), 60, c.scale(8, 16))
    c.validate('TwinTrace', fs, corrupt='rows')
    exe = c.build('plain', ['drv_canvas'])['drv_canvas']
    fs = traces(c, exe, c.scale(60, 600), 40, c.scale(4, 12), mode='mt')
    c.validate('CanvasTrace', fs, corrupt='px')

@check('C17')
def c17(c):
    c.mc('RenderBatchMC')
    for cfg in ['F', 'P', 'FS', 'PS'] + ([] if c.quick else ['F3', 'P3']): c.mc('RenderSync', 'RenderSync' + cfg, timeout=3000)
    c.assumptions.append('The scheduler runs one thread at a time: sequentially consistent executions only.')
    for variant in ('sched', 'schednf'):
        exe = c.build(variant, ['drv_sched'])['drv_sched']
        for mode, module, field in (('batch', 'AsyncTrace', 'nj'), ('pool', 'PoolTrace', 'i'), ('thread', 'PoolTrace', 'i')):
            fs = traces(c, exe, c.scale(150, 1500), 30, c.scale(4, 12), mode=mode, tag='-%s-%s' % (variant, mode))
            c.validate(module, fs, corrupt=field)
TECH['C17'] = ('TLA+ models of the synchronisation protocol (futex and portable) checked by TLC to refine the batch specification; TLC validation of '
               'traces of the real threads run under a controlled scheduler')
HOOKS.update(guard='BL_VERIF_HOOKS', enable='-DBL_VERIF_HOOKS (events of asynchronous rendering; only the C17 drivers are built with it)',
             source_commits=['3cba5a9'])

@check('C29')
def c29(c):
    exe = c.build('plain', ['drv_random'])['drv_random']
    fs = traces(c, exe, c.scale(600, 6000), 60, c.scale(3, 9))
    c.validate('RandomTrace', fs, corrupt='r')

@check('C24')
def c24(c):
    for v in ('plain', 'asan'):
        exe = c.build(v, ['drv_unicode'])['drv_unicode']
        fs = traces(c, exe, c.scale(600, 6000), 30, c.scale(3, 9), tag='-' + v)
        c.validate('UnicodeTrace', fs, corrupt='rc')

@check('C25')
def c25(c):
    exe = c.build('asan', ['drv_file'])['drv_file']
    fs = traces(c, exe, c.scale(400, 4000), 60, c.scale(4, 12), scratch=os.path.dirname(c.path('x')))
    c.validate('FileTrace', fs, corrupt='d')

TECH['C29'] = ('TLA+ specification of the generator on 64-bit words held as four 16-bit limbs (Word64, RandomSpec) and trace validation of recorded draws, '
               'copies and resets with TLC (RandomTrace)')
TECH['C24'] = ('TLA+ definition of UTF-8/16/32/Latin-1 decoding and encoding (UnicodeSpec); recorded validations, conversions and glyph buffer contents '
               'are accepted by TLC only if they follow it (UnicodeTrace)')
TECH['C25'] = ('TLA+ model of files as byte sequences and open files as positions (FileTrace) validated by TLC against recorded histories, with an operating '
               'system that transfers less than asked for or fails')
NOTE['C24'] = 'Strings are up to about 40 code units, with ill-formed sequences planted at random positions; destination sizes from 0 up.'
NOTE['C25'] = 'POSIX implementation only. read() and write() are replaced in the driver by versions that shorten or fail transfers at random.'

@check('C21')
def c21(c):
    exe = c.build('plain', ['drv_deflate'])['drv_deflate']
    fs = traces(c, exe, c.scale(250, 2500), 4, c.scale(6, 16))
    fs += traces(c, exe, c.scale(40, 400), 6, c.scale(2, 4), mode='big', tag='-big')
    c.validate('DeflateTrace', fs, corrupt='rc')
    fs = traces(c, exe, c.scale(60, 600), 6, c.scale(2, 6), mode='sums', tag='-sums')
    c.validate('DeflateTrace', fs, corrupt='crc')
    exe = c.build('asan', ['drv_deflate'])['drv_deflate']
    fs = traces(c, exe, c.scale(60, 800), 4, c.scale(2, 6), tag='-asan')
    fs += traces(c, exe, c.scale(40, 400), 6, 2, mode='big', tag='-asanbig')
    c.validate('DeflateTrace', fs)
TECH['C21'] = ('TLA+ reading of RFC 1950/1951 (Deflate: bit reader, canonical Huffman codes, blocks, window) as the oracle; TLC checks recorded decoder runs over '
               'generated streams with all input splittings, encoder output decoded by the specification, and checksums (DeflateTrace)')
NOTE['C21'] = ('Streams up to a few hundred bytes are decoded by TLC itself; larger ones (window wrap-around, long matches) compare several splittings and '
               'round trips. The decoder does not verify the Adler-32 trailer (documented by a TODO in the code), the property does not ask for it.')

@check('C19')
def c19(c):
    exe = c.build('plain', ['drv_codec'])['drv_codec']
    fs = traces(c, exe, c.scale(700, 4000), 3, c.scale(6, 18))
    c.validate('CodecTrace', fs, corrupt='rc')
    exe = c.build('asan', ['drv_codec'])['drv_codec']
    fs = traces(c, exe, c.scale(150, 1500), 3, c.scale(3, 8), tag='-asan')
    c.validate('CodecTrace', fs)

@check('C20')
def c20(c):
    exe = c.build('asan', ['drv_codec'])['drv_codec']
    fs = traces(c, exe, c.scale(2000, 12000), 4, c.scale(8, 24), mode='mut', timeout=800)
    c.validate('CodecTrace', fs, corrupt='rc')
TECH['C19'] = ('TLA+ definitions of the PNG (incl. APNG), BMP and QOI file formats (PngSpec, BmpSpec, QoiSpec over Deflate) as the oracle: TLC decodes generated '
               'conforming files and the files the encoders wrote and compares every pixel with what the library decoded (CodecTrace)')
TECH['C20'] = ('TLA+ state machine of a decoder object (new/failed/done) and the contract of a failed decode; TLC validates histories of decoder calls on damaged '
               'files recorded from an AddressSanitizer build (CodecTrace)')
NOTE['C19'] = 'Images up to about 40 x 40 pixels, all bit depths, colour types, filters and interlacing of PNG; BMP header versions, masks and RLE; JPEG is lossy and not covered.'
NOTE['C20'] = 'Files of up to a few KiB, truncated, bit-flipped, spliced or with changed fields; PNG, APNG, BMP and QOI.'

@check('C23')
def c23(c):
    exe = c.build('plain', ['drv_pixconv'])['drv_pixconv']
    fs = traces(c, exe, c.scale(1500, 6000), 12, c.scale(8, 24))
    c.validate('PixconvTrace', fs, corrupt='dst', by=128)
    exe = c.build('asan', ['drv_pixconv'])['drv_pixconv']
    fs = traces(c, exe, c.scale(600, 4000), 12, c.scale(3, 8), tag='-asan')
    c.validate('PixconvTrace', fs)
TECH['C23'] = ('TLA+ definition of pixel formats (validity, component extraction and storage, alpha kinds, palettes, byte order) as the oracle; the state machine of '
               'converter objects and every pixel of recorded conversions are checked by TLC (PixelFormat, PixconvTrace), for every instruction set level')
NOTE['C23'] = 'Widths up to 80 pixels and around the block sizes of multi-step conversion; undefined bits of the destination are not constrained.'

@check('C18')
def c18(c):
    use = [('drv_array', 'ArrayTrace', None), ('drv_string', 'StringTrace', None), ('drv_bitarray', 'BitArrayTrace', None), ('drv_bitset', 'BitSetTrace', None),
           ('drv_path', 'PathTrace', 'hist'), ('drv_gradient', 'GradientTrace', None), ('drv_fontset', 'FontSetTrace', None), ('drv_fontset', 'FontSetTrace', 'var'), ('drv_var', 'VarTrace', None)]
    exes = c.build('plain', [u[0] for u in use])
    for exe, spec, mode in use:
        fs = traces(c, exes[exe], c.scale(300, 3000), 50, c.scale(2, 6), mode=mode, extra=60, tag='-fail' + (mode or ''))
        c.validate(spec, fs, corrupt='st')
    exe = c.build('plain', ['drv_oom'])['drv_oom']
    fs = traces(c, exe, c.scale(1050, 4200), 20, c.scale(6, 16), tag='-oom', scratch=os.path.dirname(c.path('x')))
    c.validate('OomTrace', fs, corrupt='hash2')

@check('C10')
def c10(c):
    c.mc('RefCount', 'RefCount' if c.quick else 'RefCountDeep')
    for v in ('plain', 'asan'):
        exe = c.build(v, ['drv_ext'])['drv_ext']
        for m in ('array', 'image', 'font'):
            fs = traces(c, exe, c.scale(250 if v == 'plain' else 80, 2500), 40, c.scale(2, 6), mode=m, tag='-%s-%s' % (v, m))
            if v == 'plain': fs += traces(c, exe, c.scale(150, 1500), 40, c.scale(1, 4), mode=m, extra=50, tag='-fail-' + m)
            c.validate('ExtTrace', fs, corrupt='st' if v == 'plain' else None)
TECH['C10'] = ('TLA+ model of reference counting by several threads checked by TLC (RefCount), and trace validation (ExtTrace) of arrays, images and font data '
               'over caller-owned pages that are mapped read-only while an object may only read them and made inaccessible the moment they are released')
NOTE['C10'] = ('Each block of caller memory lives in its own pages, so a write to read-only memory or any access after release faults. Histories include threads '
               'copying and releasing at once, images that go away while a context draws to them, patterns and fonts that hold the object, and failing allocations.')
TECH['C18'] = ('TLA+ specifications of the containers with an "out of memory: refused, nothing changed" action; TLC validates histories recorded while allocations '
               'inside the library fail at random points; whole operations (images, scaling, patterns, codecs, files, fonts, shaping, font managers, synchronous '
               'and multithreaded rendering) are specified as functions that either report the failure or give the undisturbed result (OomTrace)')
NOTE['C18'] = ('Allocations are failed at random (one or several in a row) in about 60% of the calls; calls made of several steps may stop between them. For whole '
               'operations the k-th allocation of any thread fails, k over the first, last and random allocations.')
TECH['C03'] = ('TLA+ model of slots holding values (VarTrace): a copy is a value, so TLC rejects any history where changing one handle shows through another; '
               'validated on recorded histories over every object type')
TECH['C09'] = ('TLA+ definition of variant values, conversions and equality (VarSpec) and of object properties (PropTrace), validated by TLC on recorded histories')

@check('C33')
def c33(c):
    exe = c.build('plain', ['drv_scale'])['drv_scale']
    fs = traces(c, exe, c.scale(1500, 4000), 8, c.scale(7, 14), tag='-small')
    fs += traces(c, exe, c.scale(400, 2000), 8, c.scale(2, 8), extra=12, tag='-big')
    c.validate('ScaleTrace', fs, corrupt='rc', by=1)
    exe = c.build('asan', ['drv_scale'])['drv_scale']
    fs = traces(c, exe, c.scale(400, 4000), 8, c.scale(2, 6), tag='-asan')
    c.validate('ScaleTrace', fs)
TECH['C33'] = ('TLA+ definition of separable resampling (filter kernels, edge repetition, normalisation) in integer arithmetic (ScaleSpec); TLC computes every pixel '
               'of recorded scalings from it (ScaleTrace)')
NOTE['C33'] = ('Images up to 24 pixels wide; the tolerance is what 8-bit weights can lose in two passes (and nothing for constant images). Rows are placed in user '
               'memory with any stride; the destination may be the source or share its pixels.')

@check('C34')
def c34(c):
    exe = c.build('plain', ['drv_stroke'])['drv_stroke']
    fs = traces(c, exe, c.scale(1000, 4000), 8, c.scale(3, 8), tag='-grid')
    fs += traces(c, exe, c.scale(1000, 4000), 8, c.scale(2, 6), extra=1, tag='-short')
    fs += traces(c, exe, c.scale(800, 3000), 8, c.scale(4, 10), mode='slope', tag='-slope')
    c.validate('StrokeTrace', fs, corrupt='rc')
TECH['C34'] = ('TLA+ definition of a stroke as the union of segment boxes, join pieces and caps (StrokeSpec): exact for axis-parallel lines on the pixel grid, inner '
               'and outer bounds for lines of any direction and circles; TLC compares every pixel of recorded strokes (StrokeTrace)')
NOTE['C34'] = ('Polylines on integer coordinates, also as straight curves, widths 2..14; half a pixel is left to approximation where edges are not axis-parallel; '
               'reversed round and triangular caps only have an outer bound. Curves other than circles are not specified.')

@check('C31')
def c31(c):
    exe = c.build('plain', ['drv_fontmgr'])['drv_fontmgr']
    fs = traces(c, exe, c.scale(250, 2000), 40, c.scale(5, 12), tag='-hist')
    fs += traces(c, exe, c.scale(200, 1500), 40, c.scale(2, 6), extra=40, tag='-oom')
    c.validate('FontManagerTrace', fs, corrupt='st')
TECH['C31'] = ('TLA+ specification of a font manager as a shared set of faces with nearest-face queries (FontManager), validated by TLC on recorded histories '
               'including concurrent additions and allocation failures (FontManagerTrace)')
NOTE['C31'] = ('Faces are OpenType fonts made up on the spot. Two rank orders are accepted (documented: weight last; implemented: stretch last). Concurrent '
               'additions are sampled with real threads; the result must be explained by some order of the additions.')

@check('C32')
def c32(c):
    exe = c.build('plain', ['drv_font'])['drv_font']
    fs = traces(c, exe, c.scale(350, 3000), 30, c.scale(6, 12))
    c.validate('FontTablesTrace', fs, corrupt='gl')
    exe = c.build('asan', ['drv_font'])['drv_font']
    fs = traces(c, exe, c.scale(600, 10000), 12, c.scale(4, 12), mode='mut', tag='-mut', timeout=1500)
    c.validate('FontTablesTrace', fs)
TECH['C32'] = ('TLA+ definition of what cmap, hmtx, kern, GSUB, GPOS and glyf/loca bytes mean (FontTables); TLC decodes the tables of generated fonts and accepts a recorded '
               'mapping, shaping, metrics or coverage query only if it gives these values (FontTablesTrace)')
NOTE['C32'] = ('Fonts are generated: cmap formats 0, 4, 6, 10, 12, 13 with several encoding records, kern with Windows and Mac headers and formats 0, 2, 3; '
               'GSUB single, multiple, alternate and ligature substitution, GPOS single and pair adjustment and the script and feature lists, one subtable per lookup, are '
               'specified for generated tables; contextual lookups, mark attachment and CFF are not. Damaged tables are run under AddressSanitizer and must still map each character independently of its neighbours.')
