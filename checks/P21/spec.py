PARTS = [dict(name='dom', src='p21.cpp', libs=['core'], opt='-O1', runs=[dict(scale=1.0)])]
RULE = ('a case is one domain, one pair of domains, one tuple of multi-dimensional domains or one traversal: every operation on it is compared with explicit lists of indices; '
        'all domains with first < 9, |stride| <= 4, length < 6 and all pairs of them are covered, others are random; distinct = distinct tuples of domains')
ASSUMPTIONS = ['strides are not zero', 'all indices of a result are non-negative and representable', 'domains of two or three dimensions are not empty (as the class documents)',
               'the first operand of intersect has stride one (its documented precondition)', 'a stride is divided only by a divisor of it']
MIN_DISTINCT = 100000
