ASAN = ['-std=gnu++20', '-g1', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
        '-fno-omit-frame-pointer', '-DSTRICT_ERROR_EXCEPTIONS', '-DSTRICT_REMOVE_NODISCARD']
QUAD = ['-DSTRICT_QUAD_PRECISION']
EIGEN = ['-DSTRICT_ENABLE_EIGEN', '-isystem', '/usr/include/eigen3']

def job(name, src, quick, thorough, flags=None, cxx='g++', required=(), libs=(), **kw):
    d = dict(name=name, src=src, quick=quick, thorough=thorough, flags=flags or ASAN, cxx=cxx,
             required=list(required), libs=list(libs))
    d.update(kw)
    return d

def parts(n, **kw):
    """The same harness compiled in n parts, each with its share of the kinds and of the cases."""
    name, q, t, fl = kw.pop('name'), kw.pop('quick'), kw.pop('thorough'), kw.pop('flags', ASAN)
    req = kw.pop('required', ())
    return [job('%s.%d' % (name, i), quick=q // n, thorough=t // n, shards=kw.get('shards', max(1, 8 // n)),
                flags=fl + ['-DPART=%d' % i, '-DNPARTS=%d' % n], required=req, **{k: v for k, v in kw.items() if k != 'shards'})
            for i in range(n)]

def plain(opt, *more):
    """No sanitizer: what the optimiser makes of the code."""
    return ['-std=gnu++20', *opt.split(), '-DSTRICT_ERROR_EXCEPTIONS', '-DSTRICT_REMOVE_NODISCARD', *more]

HUGE = ['-std=gnu++20', '-g1', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
        '-DSTRICT_ERROR_EXCEPTIONS', '-DSTRICT_REMOVE_NODISCARD']
def huge(what, quick, thorough, required):
    """Objects with up to 2^63-1 elements: expressions that compute their elements, and sparse mappings."""
    return [job('huge', 'huge.cpp', quick, thorough, flags=HUGE + ['-DWHAT=%d' % what], cxx='clang++', shards=2, required=required)]

PROPS = {}

P01_EV1 = ['accepted ' + e for e in ('x[i]', 'at', 'x=y', 'it[k]', '*(it+k)', 'view2D', 'x=o*x', 'sort', 'shuffle', 'random', 'merge', 'exclude', 'o.insert(x)', 'slice', 'slice const')] \
        + ['rejected ' + e for e in ('x[i]', 'at', 'x=y', 'it[k]', '*(it+k)', '*(cend-k)', 'view2D', 'x=o*x', 'exclude', 'o.insert(x)', 'slice', 'slice const')]
P01_EV2 = ['accepted ' + e for e in ('x(i,j)', '2D.at', '2D.x=y', 'row', 'col', 'diag', 'block', 'blockN', 'rows()', 'cols()', '(list,list)', '2D.view2D', 'lines')] \
        + ['rejected ' + e for e in ('x(i,j)', '2D.at', '2D.x=y', 'row', 'col', 'diag', 'block', 'blockN', 'rows()', 'cols()', '(list,list)', '2D.view2D', 'lines', '2D.it[k]')]
P01_EV = [o + e for o in ('accepted ', 'rejected ') for e in
          ('resize', 'insert(v)', 'insert(array)', 'remove', 'remove(last-k)', 'remove(list)', 'replace(self slice)', '2D.resize', 'insert_lines(array)', 'insert_line',
           'remove_lines', 'remove_line', 'remove_lines(list)', '2D.replace(self slice)', 'read', '2D.read')] + ['rejected moved-from[0]', 'accepted move', 'swap', '2D.swap']
P01_1D = (0, 2, 5, 7)
PROPS['P01'] = dict(
    rule='A case is a history of 3-40 calls on a population of three vectors, two matrices, a fixed array, a fixed matrix and attached memory of one of '
         '8 element-type/alignment kinds: edits, assignments, element access, slices of slices, views, lines, iterators, expressions, algorithms, text in '
         'and out, moves, with arguments drawn around and far from the limits of their domains; after every call every object is checked for coherence and '
         'read completely, at the end every object is used again with exact results; run under AddressSanitizer+UBSan of gcc and of clang, with the '
         'assertions of the standard library, with a leak check after every case, and under valgrind for reads of uninitialised memory; non-trivial if '
         'calls were both accepted and rejected; distinct by the history.',
    jobs=parts(10, name='asan', src='p01.cpp', quick=8000, thorough=1000000, shards=1, flags=ASAN + ['-D_GLIBCXX_ASSERTIONS'])
       + parts(10, name='clang', src='p01.cpp', quick=6000, thorough=600000, shards=1, cxx='clang++',
               flags=['-std=gnu++20', '-g1', '-O0', '-fsanitize=address,undefined,local-bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
                      '-DSTRICT_ERROR_EXCEPTIONS', '-DSTRICT_REMOVE_NODISCARD', '-D_GLIBCXX_ASSERTIONS'])
       + [job('valgrind.%d' % i, 'p01.cpp', 100, 10000, shards=1, cxx='clang++', flags=plain('-O0 -g1', '-DPART=%d' % i, '-DNPARTS=10'),
              wrap=['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no'], watchdog=600) for i in (1, 2, 4)])
PROPS['P01']['jobs'] = [j for j in PROPS['P01']['jobs'] if j['name'] not in ('asan.3', 'asan.6', 'asan.8', 'asan.9', 'clang.0', 'clang.2', 'clang.4', 'clang.7')]
for j in PROPS['P01']['jobs']:
    i = int(j['name'].split('.')[1])
    if not j['name'].startswith('valgrind'):
        j['required'] = P01_EV + (P01_EV1 if i in P01_1D else P01_EV2)

P02_ALWAYS = ['ok at', 'bad at', 'ok view2D', 'bad view2D', 'ok 2D.at', 'bad 2D.at', 'ok 2D.view2D', 'bad 2D.view2D']
P02_EV = [o + ' ' + e for o in ('ok', 'bad') for e in
          ('[]', '()', 'row', 'col', 'diag', 'block', 'blockN', 'rows()', 'cols()', '(sl,sl)', 'exclude', 'exclude.last', 'slice.seqN',
           'slice.seq', 'slice.skipN', 'slice.firstN', 'slice.lastN', 'slice.list', 'slice.complement', '*it', 'it[]', 'cit[]', '*RowIt',
           'ColIt[]', '2D.ctor(list)', '2D.= list', '2D.= array', '2D.= transpose', 'resize', '2D.resize', 'remove(pos,count)', 'remove_rows',
           'remove_cols', 'remove_rows(list)', 'remove_cols(list)', 'insert(pos,x)', 'insert(pos,array)', 'insert_rows', 'insert_cols', 'insert_row', 'insert_col',
           'x/y', 'x%y', 'array/array', 'array<<array', 'clamps', 'factorial', 'norm_lp', 'polynomial(powers)', 'gpolynomial', 'a+b',
           'any_of(a,b)', 'dot_prod', 'const1D', 'const2D', 'e_unit', 'sequence', 'linspace', 'rands', 'random(a)', 'Size')]
P02_ABORT = ['bad []', 'bad = temporary', 'ok = temporary', 'bad 2D.= temporary', 'bad remove(pos)', 'bad 2D.resize', 'bad x/y', 'bad e_unit']
PROPS['P02'] = dict(
    rule='A case offers the library a run of calls whose arguments are drawn around and far from the limits of their domain (including the '
         'extremes of the integer types), on every kind of storage, lazy expressions, edit histories, pairs of arrays of equal and different '
         'shape, scalars, polynomials and generators; a model of the shapes decides which are inside the domain: those must not report, '
         'the others must; builds reporting by exception, by ending the process (observed in a child process), with checks off (where the '
         'checks that are always on remain) and with Eigen; distinct by calls and arguments.',
    jobs=parts(15, name="asan", src="p02.cpp", quick=104000, thorough=13000000, shards=1, required=P02_EV)
       + parts(2, name='unchecked', src='p02.cpp', quick=16000, thorough=1600000, shards=1, flags=ASAN + ['-DSTRICT_DEBUG_OFF'], required=P02_ALWAYS)
       + parts(2, name='abort', src='p02.cpp', quick=1600, thorough=160000, shards=1, required=P02_ABORT,
               flags=['-std=gnu++20', '-g1', '-O0', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-DSTRICT_REMOVE_NODISCARD'])
       + [job('eigen', 'p02.cpp', 8000, 800000, shards=1, flags=ASAN + EIGEN + ['-DWITH_EIGEN'],
              required=['ok matrix_prod', 'bad matrix_prod', 'ok matrix_prod(C)', 'bad matrix_prod(C)'])]
       + huge(4, 40000, 2000000, [o + ' huge.op%d' % i for o in ('ok', 'bad') for i in (0, 1, 2, 3, 4, 6, 7, 8)]))

P03_EV1 = [o + e for o in ('memory ', 'done ') for e in
           ('resize', 'insert(x)', 'insert(array)', 'insert(expr)', 'insert(self)', 'insert(list slice)', 'insert(quotient)', 'insert_front', 'insert_back',
            'remove', 'remove(list)', 'replace(array)', 'replace(expr)', 'replace(quotient)', 'replace(self twice)', 'construct(n)', 'construct(expr)', 'construct(quotient)')] \
        + ['rejected ' + e for e in ('resize', 'insert(x)', 'insert(array)', 'insert(quotient)', 'remove', 'remove(list)', 'replace(quotient)', 'construct(n)', 'construct(quotient)', '= array')]
P03_EV2 = [o + e for o in ('memory ', 'done ') for e in
           ('2D.resize', 'insert_rows(array)', 'insert_cols(array)', 'insert_rows(expr)', 'insert_cols(expr)', 'insert_row', 'insert_col', 'remove_rows', 'remove_cols',
            'remove_row', 'remove_col', 'remove_rows(list)', 'remove_cols(list)', '2D.replace(array)', '2D.replace(expr)', '2D.replace(quotient)', '2D.construct(expr)')] \
        + ['rejected ' + e for e in ('2D.resize', 'insert_rows(array)', 'insert_cols(quotient)', 'remove_rows', 'remove_cols(list)', '2D.replace(quotient)', '2D.construct(list)', '2D.= array')]
PROPS['P03'] = dict(level='fault_enumeration',
    rule='A case is a history of 1-4 operations (30 kinds in 1D, 32 in 2D: constructing, resizing, inserting, removing, assigning, replacing; valid, '
         'invalid, with sources whose elements can report an error) on a dynamic array of one of 8 element-type/alignment kinds; for every operation '
         'each of its allocations and each evaluation of a source element is made to fail in turn, target, operands and allocation balance being '
         'compared after each failure, and the undisturbed repetition with the result on a copy; distinct by operations and shapes.',
    jobs=[j for i, j in enumerate(parts(8, name='asan', src='p03.cpp', quick=16000, thorough=2000000, shards=1))])
for i, j in enumerate(PROPS['P03']['jobs']):
    j['required'] = ['evaluation failed', 'allocation failed'] + (P03_EV2 if i in (1, 3, 5, 7) else P03_EV1)

PROPS['P04'] = dict(
    rule='A case is one generated edit history (construction then 1-20 edits: resize keeping/dropping, insertion of '
         'scalars/arrays/slices/expressions including ones reading the target itself, removals, replacement, assignment, '
         'swap) of a dynamic 1D array of one of 6 element-type/alignment kinds, compared element by element with a '
         'std::vector model after every step; non-trivial if at least one edit changed the array; distinct by the '
         'sequence of operations and sizes.',
    jobs=parts(6, name='asan', src='p04.cpp', quick=60000, thorough=4000000, required=['insert.src2', 'insert.src3', 'insert.src8', 'resize.keep', 'resize.drop', 'remove.list', 'remove.3', 'replace.3', 'replace.6', 'swap', 'assign.5', 'rejected']))

PROPS['P05'] = dict(
    rule='A case is one generated edit history (construction then 1-16 edits: resize in both dimensions keeping/dropping, '
         'insertion of rows/columns/matrices incl. slices and expressions of the target itself, removals by position, '
         'count, last-k, list, replacement incl. transposed self, assignment, swap) of a dynamic 2D array of one of 4 '
         'element-type/alignment kinds, compared with a matrix model after every step; non-trivial if at least one edit '
         'changed the array; distinct by sequence of operations and shapes.',
    jobs=parts(4, name='asan', src='p05.cpp', quick=40000, thorough=3000000,
               required=['insert_rows.2', 'insert_cols.3', 'insert_rows.6', 'insert_row.2', 'insert_col.3', 'remove_row.4', 'remove_col.4',
                         'remove_rows.list', 'resize.keep', 'resize.drop', 'replace.3', 'replace.4', 'swap', 'assign.3', 'rejected']))

PROPS['P06'] = dict(
    rule='A case is a pool of arrays of one of 8 owning kinds (dynamic/fixed, 1D/2D, aligned or not) driven by 2-14 '
         'copies, moves, swaps, self-operations, mutations and replacements; every array of the pool is compared with its '
         'model (value, shape, distinct storage, pairwise equality) after every step; non-trivial if at least one copy, '
         'move or swap happened; distinct by the sequence of (operation, operands).',
    jobs=parts(4, name='asan', src='p06.cpp', quick=24000, thorough=2000000,
               required=['self-copy', 'self-move', 'move-assign', 'swap', 'self-swap', 'mutate', 'op.12']))

PROPS['P07'] = dict(
    rule='A case is one chain of up to 4 nested 1D selections (16 forms of range/count/stride/named/complement/index-list '
         'selection, lvalue, rvalue and const paths) over a dynamic, fixed or aligned array, a row/column/diagonal/view of '
         'a matrix, attached memory between guards, or an expression; at each level all elements are read and possibly '
         'written, and the whole underlying storage is compared with an index model; distinct by the chain of selections '
         'and their indexes.',
    jobs=parts(6, name='asan', src='p07.cpp', quick=36000, thorough=3000000)
       + huge(1, 6000, 400000, ['huge1', 'huge.write', 'sparse1', 'huge.seqN', 'huge.seq', 'huge.even', 'huge.odd', 'huge.reverse', 'huge.skipN', 'huge.firstN', 'huge.lastN', 'huge.list', 'huge.all']))

PROPS['P08'] = dict(
    rule='A case is one chain of up to 3 nested 2D selections (16 selection forms in each dimension, rows, cols, block, '
         'blockN, index lists, lvalue and const paths) over a dynamic, fixed or aligned matrix, attached memory between '
         'guards, a reshaped strided slice or an expression; at each level all elements, rows, columns, diagonals and views '
         'are read and possibly written and the whole underlying storage is compared with an index model; distinct by the '
         'chain of selections and their indexes.',
    jobs=parts(8, name='asan', src='p08.cpp', quick=32000, thorough=3000000,
               required=['2D.block', '2D.blockN', '2D.rows', '2D.cols', '2D.list-list', '2D.any-list', '2D.range-any', 'line.0', 'line.1', 'line.2', 'line.4', 'line.5'])
       + huge(2, 6000, 200000, ['huge2', 'huge.write', 'sparse2'] + ['huge2.kind%d' % i for i in range(6)] + ['huge2.op%d' % i for i in range(7)]))

PROPS['P09'] = dict(
    rule='A case is one storage (dynamic, fixed, aligned, 1D or 2D, attached external memory between guards, strided or '
         'index-list slice, expression) with up to 12 simultaneously live views of it (view1D, view2D, const views, views of '
         'views and of slices, attach1D/2D on the same memory) and 3-14 writes through randomly chosen views; after each write '
         'the storage and every view are compared with one flat model and element addresses must coincide; distinct by set of '
         'views, shapes and write order.',
    jobs=parts(6, name='asan', src='p09.cpp', quick=18000, thorough=1500000,
               required=['view1.write', 'view2.write', 'attached1', 'attached2', 'sliced1.list', 'sliced2', 'rejected']))

PROPS['P10'] = dict(
    rule='A case is one expression (a binary operator over one of 12 pairs of storage kinds in 1D or 11 in 2D, a scalar '
         'operand on either side, a compound assignment, an elementwise function, a conversion or user function, or a deep '
         'composition of three differently stored operands) over one of 8 element types with values including extremes, '
         'infinities, NaNs and denormals, compared bit by bit per element with the built-in computation, lazily and after '
         'evaluation; distinct by operation, size and result values.',
    jobs=parts(8, name='asan', src='p10.cpp', quick=48000, thorough=6000000,
               required=['op +', 'op %', 'op <<', 'op &&', '2D.op /', 'scalar-left -', 'scalar-right >>', 'compound %', 'fn pow', 'fn inv', 'fn ~', 'misc.0', 'misc.2', 'misc.3', 'misc.4', 'deep.7', 'list,list', '2D.lists,lists']))

P11_EV = ['reevaluated', 'lazy.interleaved', 'inplace.interleaved', 'inplace.fixed', 'inplace.block', 'inplace2.2', 'inplace2.7'] + ['inplace2.11'] + ['inplace.%d' % i for i in range(25)]
PROPS['P11'] = dict(
    rule='A case is either seven stored expressions over two operands (dynamic, fixed, interleaved slices of one array) '
         'evaluated before and after 4 random changes of the operands, or one in-place update (20 forms in 1D over 6 storage '
         'kinds, 11 in 2D over 3 storage kinds) with sizes up to 3000, or the 32-36 kinds of lazy objects whose single elements are '
         'read before and after single writes to the operands; compared with the computation on the old contents; the '
         'same program is run sanitized at -O0 and unsanitized at gcc -O2, gcc -O3, clang -O2 (thorough: more); distinct by '
         'form, size and history.',
    jobs=parts(4, name='asan', src='p11.cpp', quick=20000, thorough=1500000, required=P11_EV)
       + parts(2, name='gcc_O3', src='p11.cpp', quick=60000, thorough=8000000, flags=plain('-O3 -march=x86-64-v2'), required=P11_EV)
       + parts(2, name='clang_O2', src='p11.cpp', quick=60000, thorough=8000000, cxx='clang++', flags=plain('-O2'), required=P11_EV)
       + [job('gcc_O2', src='p11.cpp', quick=0, thorough=8000000, flags=plain('-O2'), tiers=['thorough'], required=P11_EV),
          job('gcc_Ofast_like', src='p11.cpp', quick=0, thorough=8000000, flags=plain('-O3 -funroll-loops -ftree-vectorize -fstrict-aliasing'), tiers=['thorough'], required=P11_EV),
          job('clang_O3', src='p11.cpp', quick=0, thorough=8000000, cxx='clang++', flags=plain('-O3 -march=x86-64-v2'), tiers=['thorough'], required=P11_EV)])

PROPS['P12'] = dict(
    rule='A case is one structural function (merge in 2-4 operand and scalar forms, merge_horizontal/vertical incl. empty '
         'and mismatched operands, exclude, sequence, linspace, irange forms, e_unit, identity, const1D/2D, transpose, '
         'row/col reduce, matvec and tensor products, broadcasts) with generated sizes and contents over up to 10 storage '
         'kinds and 4 element types, compared element by element (lazily, linearly, by row/column, evaluated) with the '
         'definition; distinct by function form and sizes.',
    jobs=parts(8, name='asan', src='p12.cpp', quick=32000, thorough=3000000,
               required=['merge.%d' % i for i in range(6)] + ['merge_horizontal.%d' % i for i in range(4)] + ['merge_vertical.%d' % i for i in range(4)]
                        + ['generator.%d' % i for i in range(7)] + ['exclude', 'broadcast', 'tensor', 'twodim.0', 'twodim.1', 'twodim.2', 'merge2D.empty'])
       + huge(3, 6000, 400000, ['huge.structural%d' % i for i in range(12)]))

PROPS['P13'] = dict(
    rule='A case is either one of 12 owning array kinds (dynamic/fixed, 1D/2D, aligned, 3 element classes, const or not) whose '
         'temporary is offered to every lazy operation, slicing, view, iterator and pointer accessor - an accepted offer is '
         'executed, its owner destroyed and the result read under AddressSanitizer - or one of 44 kinds of temporary slices, '
         'views and expressions put through every lazy operation, stored through a function return, and read after the stack '
         'has been overwritten, compared with the value it had; distinct by kind, sizes and offers.',
    jobs=parts(8, name='asan', src='p13.cpp', quick=8000, thorough=600000,
               required=['offered', 'const-owner', 'owner.dynamic1', 'owner.fixed1', 'owner.dynamic2', 'owner.fixed2', 'stored.t+u',
                         'stored.merge(w,t,u)', 'stored.t({list})', 'stored.matvec', 'stored.transpose.row', 'stored.heap', 'stored.tensor(t,w)']))

P14_EV = ['comparisons', 'op +', 'op -', 'op *', 'op /', 'op %', 'op &', 'op |', 'op ^', 'unary -', 'increment', 'chain', 'float-zero-divisor', 'casts',
          'bool-ops', 'shifts', 'zero-divisor', 'named-int', 'negative-shift', 'constants']
PROPS['P14'] = dict(
    rule='A case is 20 pairs of values of one of 8 built-in types (extremes, powers of two, random bit patterns, infinities, NaNs, '
         'denormals, signed zeros) put through every arithmetic, bitwise, shift, comparison, increment and compound operation of the '
         'wrapper and compared bit by bit with the built-in operation (operations undefined for the built-in type are left out, '
         'division by zero and negative shifts must be reported), or 5 values put through every cast and named argument type, or all '
         'literals and constants; a second build adds quadruple precision; distinct by type and values.',
    jobs=[job('asan', src='p14.cpp', quick=40000, thorough=8000000, required=P14_EV),
          job('quad', src='p14.cpp', quick=20000, thorough=2000000, flags=ASAN + ['-DSTRICT_QUAD_PRECISION'], libs=['-lquadmath'], required=P14_EV + ['quad-ops', 'quad-casts']),
          job('gcc_O3', src='p14.cpp', quick=100000, thorough=20000000, flags=plain('-O3'), required=P14_EV),
          job('clang_O2', src='p14.cpp', quick=100000, thorough=20000000, cxx='clang++', flags=plain('-O2'), required=P14_EV)])

P16_EV = ['signs', 'abss', 'mins', 'maxs', 'clamps', 'in_open', 'in_closed', 'squares', 'cubes', 'pows', 'exps', 'tans', 'floors', 'ceils', 'isinfs', 'invs', 'fmas',
          'pows_int', 'exps_int', 'fast_pows_int', 'fast_pows_int special', 'factorial', 'binom_coeff', 'binom_coeff large', 'reported clamps', 'reported in_open',
          'reported in_closed', 'reported pows', 'reported factorial', 'reported binom_coeff']
PROPS['P16'] = dict(
    rule='A case is 8 argument tuples of one built-in type (extremes, halves, powers, infinities, NaNs, denormals) put through every scalar '
         'mathematical function: integer functions against exact 128-bit computation, elementary and classification functions bit by bit '
         'against the standard function, repeated multiplication against a wide power within a few ulp per multiplication, and calls '
         'outside a stated domain must be reported; a second build adds quadruple precision; distinct by type and arguments.',
    jobs=[job('asan', src='p16.cpp', quick=40000, thorough=8000000, required=P16_EV),
          job('quad', src='p16.cpp', quick=20000, thorough=2000000, flags=ASAN + QUAD, libs=['-lquadmath'], required=P16_EV + ['quads']),
          job('gcc_O2', src='p16.cpp', quick=60000, thorough=20000000, flags=plain('-O2'), required=P16_EV)])

PROPS['P17'] = dict(
    rule='A case is one array (1D or 2D, one of 7 arithmetic types plus quad, sizes 0 to 600, values exactly representable, '
         'spanning magnitudes, wrapping, or with repeated extremes) held in one of the storage kinds of the library; every '
         'reduction is recomputed from its definition in exact integer or 113-bit arithmetic and compared exactly or within the '
         'rounding bound of the naive algorithm, with and without a default for empty input; distinct by operation group, type '
         'and shape.',
    jobs=parts(8, name='asan', src='p17.cpp', quick=24000, thorough=3000000, required=['sum', 'prod', 'norm_lp', 'min_index', 'max_index 2D', 'gpolynomial', 'dot_prod 2D', 'dot_prod2', 'empty min_index 2D'])
    + [job('quad', src='p17.cpp', quick=4000, thorough=200000, shards=2, flags=ASAN + QUAD, libs=['-lquadmath'])])

PROPS['P18'] = dict(
    rule='A case is one array or pair of arrays (1D or 2D, 8 element types, mostly constant values with single exceptions at the '
         'ends or inside, signed zeros, infinities, NaN, integer extremes) held in one of the storage kinds; every predicate form '
         '(value, named value, callable, two arrays, with and without default for empty), equality, range query and for_each is '
         'recomputed by quantifying over the recorded elements, and the calls made to the callable are recorded and compared with '
         'the element sequence; distinct by group, shape and base value.',
    jobs=parts(8, name='asan', src='p18.cpp', quick=24000, thorough=3000000,
               required=['for_each', 'ranges', 'all_of 2 true', 'none_of 2 false', 'operator== true', 'operator== false', '2D equal list true',
                         'all_finite false', 'has_nan true', 'all_neg true', 'write.0', 'write.2', 'write.4', 'none_of f true']))

P19_EV = ['two', 'pow odd', 'pow even', 'pow small', 'stable_sum', 'semi_stable_sum', 'stable_prod', 'stable_mean', 'stable_dot_prod', 'semi_stable_dot_prod', 'stable_norm1', 'stable_norm1_scaled',
          'stable_norm2', 'stable_norm2_scaled', 'stable_norm_lp', 'stable_norm_lp_scaled', 'stable_polynomial', 'stable_polynomial powers', 'stable_gpolynomial', 'lengthy', 'two_prod array',
          'pow_prod array', 'empty polynomial', 'empty stable_sum']
GMP = ['-lgmpxx', '-lgmp']
PROPS['P19'] = dict(
    rule='A case is 30 pairs of numbers through the error-free transformations and powers, or one array (1D or 2D, up to 120000 elements, '
         'several storage kinds, cancelling to a chosen degree, of one sign, or spanning magnitudes) through the compensated sums, products, '
         'norms, dot products or polynomials; results are compared with exact multiple precision arithmetic within the a-priori bound of '
         'the compensated algorithm (one rounding plus a second-order term), in sanitized, gcc -O3 and clang -O2 builds and in quadruple '
         'precision; distinct by operation group, size and data.',
    jobs=parts(3, name='asan', src='p19.cpp', quick=9000, thorough=1200000, libs=GMP, required=P19_EV)
       + parts(3, name='gcc_O3', src='p19.cpp', quick=12000, thorough=2400000, flags=plain('-O3'), libs=GMP, required=P19_EV)
       + parts(3, name='clang_O2', src='p19.cpp', quick=12000, thorough=2400000, cxx='clang++', flags=plain('-O2'), libs=GMP, required=P19_EV)
       + [job('quad', src='p19.cpp', quick=2000, thorough=100000, flags=plain('-O1') + QUAD + ['-DPART=3', '-DNPARTS=4'], libs=GMP + ['-lquadmath'], required=P19_EV)])

# The semi-random generator is keyed by the last digit of the compilation time: both the builds and the digits vary.
def at_second(d):
    return ['-Wno-builtin-macro-redefined', '-D__TIME__="12:34:5%d"' % d]
P20_EV = ['scalar draws', 'covered random(A)', 'covered semi_random(A)', 'covered random(n)', 'covered semi_random(n)', 'target list', 'target column', 'target attached', 'target 2D slice',
          'repeated', 'repeated lazy', 'repeated lazy 2D', 'random_not0(A)', 'semi_random_not0(A)', 'random(A,B,C)', 'semi_random(A,B,C)', 'bool random(A)', 'bool semi_random(n)',
          'random(Rows,Cols,Low,High)', 'semi_random_not0<T>(Rows,Cols)']
PROPS['P20'] = dict(
    rule='A case is one request to the random or semi-random generators (scalar, one or several targets, lazy 1D/2D, every positional and '
         'named form, not-zero variants) over one of 8 element types with a range that is a point, tiny, at the end of the type, around zero '
         'or enormous, on targets that are whole arrays, strided, reversed or listed slices, columns, blocks or attached memory; every '
         'produced value is compared with the range, storage outside the target with its old contents, small ranges are drawn until each '
         'value is due, semi-random requests are repeated and compared; builds differ in the compilation time the generator is keyed '
         'by; distinct by request and range.',
    jobs=[job('asan.%d' % i, 'p20.cpp', 800, 60000, shards=1, flags=ASAN + ['-DPART=%d' % i, '-DNPARTS=7'] + at_second(i), required=P20_EV) for i in range(7)]
       + [job('quad', 'p20.cpp', 400, 30000, shards=1, flags=ASAN + QUAD + ['-DPART=7', '-DNPARTS=8'] + at_second(9), libs=['-lquadmath'], required=['scalar draws', 'repeated lazy 2D']),
          job('late', 'p20.cpp', 0, 60000, tiers=['thorough'], flags=plain('-O2') + at_second(8), required=P20_EV),
          job('now', 'p20.cpp', 0, 60000, tiers=['thorough'], flags=plain('-O2'), required=P20_EV)])

P21_EV = ['1D.0', '1D.1', '1D.2', '1D.3', '2D', '2D.labels', '2D.empty', 'back 1D', 'back 2D', 'file 1D', 'file 2D', 'print_to_file', 'misc', 'random printed']
PROPS['P21'] = dict(
    rule='A case is one array (1D or 2D, 8 element types plus quad, up to 130 elements, integer extremes, denormals, powers of ten, '
         'infinities, NaN) in one of the storage kinds printed under a generated format (scientific or fixed, precision, row or column '
         'style, labels), through every printing function; the text is parsed by an independent reader (number of lines, values per '
         'line, labels, each value within half a unit of the last printed digit), read back through streams and files into dynamic '
         'arrays already holding something, and compared element by element; distinct by shape, format and data.',
    jobs=parts(8, name='asan', src='p21.cpp', quick=16000, thorough=1600000, required=P21_EV)
       + [job('quad', 'p21.cpp', 1600, 100000, shards=1, flags=ASAN + QUAD + ['-DPART=8', '-DNPARTS=9'], libs=['-lquadmath'],
              required=['1D.0', '2D', 'back 1D', 'back 2D', 'misc'])])

P22_EV = ['accepted 1D', 'empty 1D', 'rejected 1D', 'accepted 2D', 'rejected 2D', 'empty 2D', 'ragged', 'grown rows', 'grown columns', 'stream broke', 'failed stream', 'unreadable file', 'file', 'mutated',
          'accepted scalar', 'rejected scalar']
PROPS['P22'] = dict(
    rule='A case is 4 texts for one of 8 element types (plus quad): generated lists and tables of numbers (long, extreme and overflowing '
         'values, every kind of whitespace, blank lines, ragged rows, missing final newline), half of them corrupted by insertions, '
         'deletions, truncation, duplicated pieces, NUL and non-ASCII bytes; each is read as scalar, 1D and 2D array through string, '
         'dripping, failed and breaking streams and files into an array that holds something; an independent parser decides acceptance '
         'and the values; after a rejection the target must have its old contents and storage; checked, unchecked and optimised builds; '
         'distinct by text.',
    jobs=[job('asan', 'p22.cpp', 16000, 2000000, shards=3, required=P22_EV),
          job('asan_unchecked', 'p22.cpp', 16000, 2000000, shards=3, flags=ASAN + ['-DSTRICT_DEBUG_OFF'], required=P22_EV),
          job('gcc_O2', 'p22.cpp', 30000, 6000000, shards=1, flags=plain('-O2', '-DSTRICT_DEBUG_OFF'), required=P22_EV),
          job('quad', 'p22.cpp', 8000, 600000, shards=1, flags=ASAN + QUAD, libs=['-lquadmath'], required=P22_EV)])

P24_EV = ['extreme scale', 'within_tol_abs holds', 'within_tol_abs fails', 'within_tol_rel holds', 'within_tol_rel fails', 'within_tol_rel near', 'rel_error', 'rel_error none', 'array within_tol_abs holds',
          'array within_tol_abs fails', 'array within_tol_rel holds', 'array within_tol_rel fails', 'max_rel_error', 'max_rel_error none', 'empty', 'mismatch', 'negative tolerance', 'list within_tol_rel fails',
          '2D list within_tol_abs holds']
PROPS['P24'] = dict(
    rule='A case is 12 pairs of numbers or one pair of arrays (1D or 2D, floating types including quad, up to 300 elements, any of 11 pairs '
         'of storage kinds), equal, nearly equal or deviating at one chosen position, with zeros and values around the default threshold; '
         'the tolerances sit at, just below, just above and far from the measured error; errors are compared with 113-bit arithmetic and '
         'predicates with the definition, exactly where its terms are exact and outside a band of 4 epsilons otherwise, in both orders and '
         'every call form; distinct by data and tolerances.',
    jobs=parts(8, name='asan', src='p24.cpp', quick=32000, thorough=4000000, required=P24_EV)
       + [job('gcc_O2', 'p24.cpp', 0, 4000000, tiers=['thorough'], flags=plain('-O2'), required=P24_EV),
          job('quad', 'p24.cpp', 2400, 200000, shards=1, flags=ASAN + QUAD + ['-DPART=3', '-DNPARTS=4'], libs=['-lquadmath'],
              required=['array within_tol_rel holds', 'max_rel_error'])])

P23_EV = ['laws', 'reverse laws', 'reading', 'writing', 'lines', 'indexes', 'expression', '2D expression', 'sort_increasing', 'sort_decreasing', 'sort', 'sort key', 'shuffle', 'stable_sort', 'heap', 'reverse sort',
          'inplace_merge', 'ranges', 'range for write', 'sorted ranges'] + ['kind %d' % i for i in range(8)] + ['2D kind %d' % i for i in range(7)]
PROPS['P23'] = dict(
    rule='A case is one range (arrays of 4 element types, fixed and aligned ones, strided, reversed and listed slices, rows, columns, blocks, '
         'attached memory, reshaped slices, expressions, row and column ranges, index ranges; 0 to 200 elements): every iterator obtained '
         'from it (mutable, constant, reverse) is put through the random-access laws at random positions against the recorded elements, '
         'reading algorithms are compared with the same on a std::vector, and one of 34 writing algorithms (sort in each form, shuffle, '
         'heap, merge, rotate ...) is run and the whole underlying storage compared; distinct by range and operation.',
    jobs=parts(12, name='asan', src='p23.cpp', quick=7200, thorough=2000000, required=P23_EV))

P27_EV = ['mapped', 'written', 'product', 'product into operand', 'refused', 'empty']
PROPS['P27'] = dict(
    rule='A case is a pair of conforming matrices (6 element types, shapes 1x1 to 40x40 including single rows and columns, aligned or not, '
         'values with exact products) and fixed-size ones: the mapping of each is compared element by element and address by address with '
         'the array, writes on either side are looked up on the other, products into a new matrix, an existing one and into an operand are '
         'compared with the definition, five kinds of non-conforming calls must be refused without effect; sanitized and optimised '
         '(vectorised) builds; distinct by operands.',
    jobs=parts(6, name='asan', src='p27.cpp', quick=6000, thorough=900000, flags=ASAN + EIGEN, required=P27_EV)
       + [job('gcc_O3', 'p27.cpp', 12000, 2000000, shards=2, flags=plain('-O3 -march=native') + EIGEN + ['-DPART=0', '-DNPARTS=2'], required=P27_EV)])

P28_EV = ['aligned', 'empty', 'copied', 'moved', 'swapped', 'written', 'exported', 'exported any', 'container', 'resized', 'inserted', 'removed', 'replaced', 'expression', 'member']
PROPS['P28'] = dict(
    rule='A case is the history of three arrays of one of 16 owning kinds (dynamic and fixed, 1D and 2D, aligned or not, empty to some '
         'thousand elements, among unrelated heap blocks that spoil accidental alignment): construction in each form, copies, moves, '
         'assignments, swaps, resizes, insertions, removals, replacement, growth inside std::vector; after each step the raw memory behind '
         'data() and blas_data() is compared with a model, the address of every element with its row-major place, the address with 64 for '
         'aligned arrays, and values are written through one pointer and looked up through the others; exported copies of every storage '
         'kind are compared and overwritten; sanitized and optimised builds; distinct by history.',
    jobs=parts(6, name='asan', src='p28.cpp', quick=18000, thorough=3000000, required=P28_EV)
       + [job('gcc_O2', 'p28.cpp', 30000, 6000000, shards=2, flags=plain('-O2') + ['-DPART=1', '-DNPARTS=2'], required=[e for e in P28_EV if e not in ()])])

P29_EV = (['1D groups', '2D groups'] + ['1D ' + k for k in ('aligned', 'stride2', 'reverse', 'list', 'view1D', 'attach', 'expr', 'col.slice', 'fixed7')]
          + ['2D ' + k for k in ('aligned', 'block', 'lists', 'view2D', 'attach', 'expr', 'strided', 'fixed3x4')]
          + ['1D write ' + k for k in ('aligned', 'stride2', 'reverse', 'list', 'view1D', 'attach', 'col.slice', 'fixed7')]
          + ['2D write ' + k for k in ('aligned', 'block', 'lists', 'view2D', 'attach', 'strided', 'fixed3x4')])
PROPS['P29'] = dict(
    rule='A case is one array (6 element types plus quad, 1D or 2D, 0 to some hundred elements with zeros of both signs, denormals, huge and tiny '
         'values) and one of 8+8 groups of read-only operations (indexing and iteration, every selection form, reductions, predicates, unary and '
         'binary expressions, stable operations, structural functions, printing, comparisons; over a hundred in all) or a sequence of writing '
         'operations; all results including reported errors are folded into a digest for the plain dynamic array and for other storage kinds holding '
         'the same elements (aligned, strided, reversed, listed, row/column, view, attached memory, expression, fixed size), and the digests '
         'must be equal; distinct by group, shape and elements.',
    jobs=parts(34, name='asan', src='p29.cpp', quick=10200, thorough=3000000, shards=1, required=P29_EV)
       + [job('quad', 'p29.cpp', 400, 60000, shards=1, flags=ASAN + QUAD + ['-DPART=%d' % i, '-DNPARTS=5'], libs=['-lquadmath']) | {'name': 'quad.%d' % i} for i in range(5)])

# Whole programs.
P30_EV = ['LU', 'Gauss-Jordan', 'Jacobi', 'product', 'Strassen', 'determinant', 'Kronecker', 'stencil 1D', 'stencil 2D', 'sieve', 'life', 'transform',
          'polynomial product', 'std algorithms', 'Pascal', 'queue', 'table', 'set', 'shortest paths', 'permutation', 'scan', 'Toeplitz', 'text',
          'statement 1D', 'statement 2D'] + ['sort method %d' % i for i in range(6)]
PROPS['P30'] = dict(
    rule='A case is one whole program run on random data next to the same computation written as loops over std::vector: 26 programs '
         '(factorizations, solvers, matrix products by several routes, stencils, sieve, game of life, number theoretic transform, polynomial products, '
         'six sorts, standard algorithms over library iterators, triangles, queues, tables and sets grown and shrunk, shortest paths, permutations, '
         'scans, diagonals, text, and random straight-line programs of 3 to 30 statements over registers held in different storage), over several '
         'element types and with the data in each kind of storage, comparing whole states after every statement; distinct by data and statements.',
    jobs=parts(14, name='asan', src='p30.cpp', quick=56000, thorough=4000000, shards=1, required=P30_EV)
       + parts(7, name='gcc_O3', src='p30.cpp', quick=140000, thorough=8000000, shards=1, flags=plain('-O3'), required=P30_EV)
       + parts(7, name='clang_O2_unchecked', src='p30.cpp', quick=140000, thorough=8000000, shards=1, cxx='clang++', flags=plain('-O2', '-DSTRICT_DEBUG_OFF'), required=P30_EV))

# What reports say.
P31_ALWAYS = ['configuration', 'kind range', 'kind input', 'kind path'] + ['always ' + e + v for e in (
    'at', 'const at', 'at 2D', 'const at 2D', 'read 1D', 'read 2D', 'read file 1D', 'read file 2D', 'missing file', 'unwritable file') for v in (' valid', ' invalid')]
P31_EV = P31_ALWAYS + ['kind plain', 'kind division', 'kind modulo', 'kind first', 'kind second'] + ['other %d' % i for i in range(17)] + [
    e + v for e in ('index', 'const index', 'index 2D', 'const index 2D', 'iterator[]', 'const_iterator[]', 'iterator*', 'const_iterator*', 'iterator->',
                    'scalar', 'scalar compound', 'element of expression', 'evaluated expression', 'assigned expression', 'array compound',
                    'expression and scalar', 'compound scalar', 'slice compound scalar', 'scalar and expression', 'compound 2D', 'reduced 2D')
    for v in (' valid', ' invalid')]
PROPS['P31'] = dict(
    rule='A case is one call, about half of them invalid: element access in every form on ten storage kinds, iterators, integer division, '
         'remainder and shifts of scalars, of elements of lazy expressions and in compound assignments, text and files, and 17 other rejected calls, for '
         'five element types. The text of the report is judged: the kind it names is the violation committed and no other, it names an existing library '
         'file, a line in it, a function and a condition; with exceptions it is a StrictException whose text survives copies, '
         'rethrowing and other allocations and nothing is printed; without them it stands on standard error before the abort. Valid calls '
         'print and report nothing. Distinct by operation and arguments.',
    jobs=parts(5, name='asan', src='p31.cpp', quick=100000, thorough=6000000, shards=1, required=P31_EV)
       + parts(5, name='gcc_abort', src='p31.cpp', quick=15000, thorough=300000, shards=1, flags=plain('-O0', '-USTRICT_ERROR_EXCEPTIONS'), required=P31_EV)
       + parts(5, name='clang_unchecked', src='p31.cpp', quick=20000, thorough=1000000, shards=1, cxx='clang++', flags=plain('-O2', '-DSTRICT_DEBUG_OFF'), required=P31_ALWAYS)
       + parts(2, name='clang_abort_unchecked', src='p31.cpp', quick=15000, thorough=200000, shards=1, cxx='clang++', flags=plain('-O1', '-USTRICT_ERROR_EXCEPTIONS', '-DSTRICT_DEBUG_OFF'), required=P31_ALWAYS)
       + [job('quad', 'p31.cpp', 4000, 40000, shards=1, flags=plain('-O1') + QUAD + ['-DPART=0', '-DNPARTS=5'], libs=['-lquadmath'], required=['configuration']),
          job('stacktrace', 'p31.cpp', 500, 10000, shards=2, flags=['-std=gnu++23', '-O0', '-DSTRICT_STACKTRACE', '-DSTRICT_REMOVE_NODISCARD', '-DPART=0', '-DNPARTS=5'], libs=['-lstdc++exp'],
              required=['kind range', 'kind division'])])

P32_EV = ['STRICT_TIME', 'restart', 'assign', 'copy', 'history', 'timer', "caller's names", 'real clock']
PROPS['P32'] = dict(
    rule='A case is a history of up to 40 steps over up to 6 timers (created, restarted, copied, assigned) against a clock owned by the '
         'program, set forward by 0 ns to 1.5 years between steps, every timer read twice after every step; or one of seven statements '
         'inside STRICT_TIME whose effect, number of executions, exception, printed line and influence on std::cout are compared; or a '
         'real interval enclosed by two looks at the system clock; distinct by steps and intervals.',
    assumptions=['All wall clocks of the system advance by the same amount; nobody sets them.'],
    jobs=[job('asan', 'p32.cpp', 60000, 6000000, shards=4, required=P32_EV),
          job('clang_O2', 'p32.cpp', 60000, 6000000, shards=2, cxx='clang++', flags=plain('-O2', '-DSTRICT_DEBUG_OFF'), required=P32_EV)])

# The same calls in builds that are not allowed to differ: checks on and off, exceptions and abort, quadruple precision
# enabled, two compilers, levels of optimisation.  Each part's results are compared case by case with the first build.
P25_EV = ['1D double', '2D double', '1D int', '2D int', 'other types', 'edits', 'scalars', 'text']
def p25(opt, *more):
    return ['-std=gnu++20', *opt.split(), '-DSTRICT_REMOVE_NODISCARD', *more]
P25_BUILDS = [('asan', 'g++', ASAN, []), ('gcc_O2_unchecked', 'g++', p25('-O2', '-DSTRICT_DEBUG_OFF'), []),
              ('gcc_O3_abort', 'g++', p25('-O3'), []), ('clang_O2_unchecked', 'clang++', p25('-O2', '-DSTRICT_DEBUG_OFF'), []),
              ('clang_O1_abort', 'clang++', p25('-O1'), []),
              ('clang_cxx26', 'clang++', p25('-O1', '-std=c++26', '-DSTRICT_ERROR_EXCEPTIONS'), []),
              ('quad_unchecked', 'g++', p25('-O1', '-DSTRICT_DEBUG_OFF', *QUAD), ['-lquadmath'])]
P25_ALWAYS = [e + v for e in ('always at', 'always at 2D', 'always read', 'always view2D') for v in (' valid', ' invalid')]
P25_CHECKED = P25_ALWAYS + [e + v for e in ('index', 'index 2D', 'assign', 'expression', 'move assign', 'resize', 'insert', 'remove', 'remove_row', 'col', 'seq', 'list',
                                            'division', 'remainder', 'shift', 'dot_prod', 'construct', 'construct 2D', 'random range', 'exclude') for v in (' valid', ' invalid')]
P25_CE = ['constexpr ' + e for e in ('edits', 'matrices', 'reductions', 'expressions', 'scalars')]
P25N = 12
PROPS['P25'] = dict(
    rule='A case is either one deterministic workload of valid calls (one of 47: groups of reading and writing operations on 1D and 2D '
         'arrays in several storage kinds, edit histories, scalar arithmetic, text output and input; 6 element types) whose every result is '
         'digested in seven builds (sanitized with exceptions; unchecked gcc -O2; checked aborting gcc -O3; unchecked clang -O2; checked '
         'aborting clang -O1; C++26 with more constexpr, clang; quadruple precision enabled) and compared between them, or one call in a child process of a build without '
         'exceptions that must abort exactly if it is invalid and checked there, or one constexpr program evaluated by the compiler and again at '
         'run time; distinct by digest of results.',
    jobs=[job('%s.%d' % (b, i), 'p25.cpp', 4000 // P25N, 400000 // P25N, shards=1, cxx=cxx, flags=fl + ['-DPART=%d' % i, '-DNPARTS=%d' % P25N], libs=libs,
              required=P25_EV, compare='part%d' % i)
          for i in range(P25N) for b, cxx, fl, libs in P25_BUILDS]
       + [job('abort', 'p25abort.cpp', 3000, 60000, shards=2, flags=p25('-O1'), required=P25_CHECKED),
          job('abort_unchecked', 'p25abort.cpp', 3000, 60000, shards=2, flags=p25('-O1', '-DSTRICT_DEBUG_OFF'), required=P25_ALWAYS)]
       + [job('constexpr_gcc.%d' % i, 'p25c.cpp', 240, 240, shards=1, flags=plain('-O1 -fconstexpr-ops-limit=2000000000') + ['-DPART=%d' % i, '-DNPARTS=3'],
              required=P25_CE) for i in range(3)]
       + [job('constexpr_clang.%d' % i, 'p25c.cpp', 240, 240, shards=1, cxx='clang++', flags=plain('-O1 -fconstexpr-steps=2000000000') + ['-DPART=%d' % i, '-DNPARTS=3'],
              required=P25_CE) for i in range(3)])

TSAN = ['-std=gnu++20', '-g1', '-O1', '-fsanitize=thread', '-DSTRICT_ERROR_EXCEPTIONS', '-DSTRICT_REMOVE_NODISCARD']
P26_EV = ['thread ' + e for e in ('read shared', 'edit own', 'random', 'text', 'errors', 'scalars')] + ['shared 1D', 'shared 2D', 'shared lazy', 'interleaved', 'several readers of one object']
PROPS['P26'] = dict(
    rule='A case is 2-5 threads released together: readers of one shared constant object (1D or 2D array in one of the storage kinds, or one '
         'of ten lazy expressions, slices and views) running a group of the reading catalogue (indexing, slicing, views, expressions, '
         'reductions, comparison, iteration, printing), and threads working on objects of their own (edit histories, random and '
         'semi-random generation, text output and input, reported errors, scalar arithmetic), under ThreadSanitizer, each result '
         'compared with what the same script computes alone before or after; distinct by scripts and observed interleaving of steps.',
    assumptions=['printing to std::cout, the global output format and shuffling one array from several threads are shared state of the user and not driven'],
    jobs=parts(12, name='tsan', src='p26.cpp', quick=6000, thorough=1000000, shards=1, quick_timeout=450, flags=TSAN, required=P26_EV)
       + [j | {'tiers': ['thorough']} for j in parts(6, name='gcc_O2', src='p26.cpp', quick=0, thorough=2000000, flags=plain('-O2'), required=P26_EV)])

def build_probes(job, out, repo):
    """Compiles a program of probes, leaving out - after each attempt - the probes that the compiler's errors belong to:
    those the library rejects inside itself.  Every probe is thus seen rejected by the compiler or is executed."""
    import os, re, subprocess
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(here, 'harness', job['src'])
    lines = open(src).read().split('\n')
    base = os.path.basename(src).replace('.', r'\.')
    probe = {i + 1 for i, l in enumerate(lines) if re.match(r'\s*R\(', l)}
    skip, undecided, inc = set(), set(), out + '.inc'
    cmd = [job['cxx'], *job['flags'], '-ftemplate-backtrace-limit=0', '-fno-diagnostics-show-caret', '-DSKIPPED="%s"' % inc,
           '-I' + repo, '-I' + os.path.join(here, 'harness'), src, '-o', out, *job.get('libs', [])]
    err = ''
    for attempt in range(40):
        with open(inc, 'w') as f:
            for x in sorted(skip):
                f.write('template <> constexpr bool skipped<%d, %d, %d> = true;\n' % x)
            f.write('inline const std::size_t n_rejected_inside = %d, n_undecided = %d;\n' % (len(skip - undecided), len(undecided)))
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=600, env=dict(os.environ, LC_ALL='C'))
        err = p.stderr
        if p.returncode == 0:
            return out, ' '.join(cmd), ''
        new, groups, ctx = set(), set(), None
        for l in err.split('\n'):
            m = re.search(base + r": In instantiation of '.*?\[with int L = (\d+); int K = (\d+)", l)
            if m:
                ctx = (int(m[1]), int(m[2]))
                continue
            m = re.search(r"required (?:from|by substitution of) '.*?\[with int L = (\d+); int K = (\d+)", l)
            if m:
                groups.add((int(m[1]), int(m[2])))
                m = re.search(base + r":(\d+):\d+:\s+(?:recursively )?required (?:from|by substitution of) '.*?\[with int L = (\d+); int K = (\d+)", l)
                if m and int(m[1]) in probe:
                    new.add((int(m[1]), int(m[2]), int(m[3])))
                continue
            if 'In instantiation of' in l or 'In function' in l:
                ctx = None
            m = re.search(base + r':(\d+):\d+: error', l)
            if m and ctx and int(m[1]) in probe:
                new.add((int(m[1]),) + ctx)
        new -= skip
        if not new:   # errors of no particular probe: the groups they occur in are left undecided
            new = {(n, L, K) for n in probe for L, K in groups} - skip
            undecided |= new
        if not new:
            break
        skip |= new
    return None, ' '.join(cmd), err

P15_EV = ['scalars', 'arrays', 'matrices', 'other built-in types', 'conditions', 'wrong index', 'right index', 'one type', 'rejected by the compiler']
PROPS['P15'] = dict(
    rule='A case is one pair of element types (all 56 ordered pairs of 8 types for scalars, 12 pairs for arrays), one type with the built-in '
         'types the library does not wrap, or one index type, offered to every operator, assignment, constructor, function and method that '
         'could mix them (some 30-600 operations per pair); what the compiler accepts is executed and reported, what it rejects is '
         'counted, and operations of one type, explicit casts and proper index types must be accepted and give the built-in result; '
         'distinct by pair and operand values.',
    assumptions=['an operation rejected by a hard error of the compiler is observed in the compiler\'s output, not in an execution'],
    jobs=parts(27, name='probes', src='p15.cpp', quick=2160, thorough=54000, shards=1, build=build_probes, required=P15_EV,
               flags=['-std=gnu++20', '-O0', '-DSTRICT_ERROR_EXCEPTIONS', '-DSTRICT_REMOVE_NODISCARD']))

# The same guarantees on objects of hundreds to tens of thousands of elements.
LARGE_KINDS = ['dyn', 'aligned', 'stride2', 'reverse', 'list', 'view1D', 'col.slice']
LARGE = {4: ['edit %d' % i for i in range(10)], 5: ['edit %d' % i for i in range(7)], 6: ['values'], 7: ['1D slices'], 8: ['2D slices'], 9: ['views'],
         10: LARGE_KINDS + ['expr'], 11: LARGE_KINDS, 12: ['structural'], 17: LARGE_KINDS, 18: LARGE_KINDS + ['not finite'], 20: ['random'], 21: ['text'], 22: ['malformed'],
         23: LARGE_KINDS + ['operation %d' % i for i in range(5)], 24: LARGE_KINDS, 27: ['products'], 28: ['aligned', 'unaligned']}
for w, ev in LARGE.items():
    PROPS['P%02d' % w]['rule'] += (' In the large jobs a case is one program on objects of 200 to 70000 elements, with lengths around powers of two and '
                                   'round numbers, every element compared; distinct by the lengths and shapes drawn.')
    eig = ['-DWITH_EIGEN'] + EIGEN if w == 27 else []
    PROPS['P%02d' % w]['jobs'] += [
        job('large', 'large.cpp', 300 if w in (21, 23) else 600, 30000, shards=2, required=ev, flags=ASAN + ['-O1', '-DWHAT=%d' % w] + eig),
        job('large_O3', 'large.cpp', 500 if w in (21, 23) else 1000, 100000, shards=2, cxx='clang++' if w % 2 else 'g++', required=ev, flags=plain('-O3', '-DSTRICT_DEBUG_OFF', '-DWHAT=%d' % w) + eig)]

PROPS['P01']['rule'] += ' In the examples job a case is one run of a program from the examples directory, with checks enabled.'
PROPS['P01']['jobs'] += [job('examples', 'examples.cpp', 12, 240, shards=1, flags=ASAN + ['-O1'] + QUAD, libs=['-lquadmath'], required=['example%d' % i for i in (0, 1, 2, 3, 4, 6)])]
