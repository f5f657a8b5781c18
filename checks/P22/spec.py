R = 'X(%s,"%s")'
TY = [('bool', 'bool'), ('char', 'char'), ('signed char', 'int8'), ('unsigned char', 'uint8'), ('short', 'int16'), ('unsigned short', 'uint16'), ('int', 'int32'), ('unsigned int', 'uint32'),
      ('long', 'int64'), ('unsigned long', 'uint64'), ('float', 'float'), ('double', 'double'), ('complex<float>', 'cfloat'), ('complex<double>', 'cdouble')]
def P(name, fn, *types):
    return dict(name=name, src='p22.cpp', libs=['core'], opt='-O0', timeout=200, runs=[dict(scale=1.0)],
                defs=['-DP_REPS=%d' % (60 // len(types)), '-DP_RUN=' + ' '.join('%s<%s>();' % (fn, t) for t in types), '-DP_READ=' + ' '.join(R % t for t in TY)])
PARTS = [P('f', 'reals', 'float'), P('i', 'reals', 'int'), P('u', 'reals', 'unsigned char'), P('b', 'reals', 'bool'), P('c', 'reals', 'char'), P('l', 'reals', 'long'), P('us', 'reals', 'unsigned short'),
         P('d', 'reals', 'double'), P('cf', 'complexes', 'complex<float>'), P('cd', 'complexes', 'complex<double>')]
RULE = ('a case is one serialised source (storage form, view, requested layout, or user storage; with its own descriptor or a tampered one) offered to one reader block type; a reader that accepts is bound to a '
        'copy of exactly the serialised elements and every value is compared; distinct = distinct (source, shape, subview, reader)')
ASSUMPTIONS = ['a reader may reject data whose strides of dimensions of size one are unusual', 'storage_size is not judged: its unit is documented nowhere and differs between the two ways to obtain a descriptor',
               'source and reader run on the same architecture']
MIN_DISTINCT = 3000
