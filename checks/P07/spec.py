PARTS = [dict(name='serial', src='p07.cpp', libs=['core'], opt='-O1', runs=[dict(scale=1.0, seeds=4)]),
         dict(name='np_cycles', src='p07.cpp', libs=['core'], opt='-O1', runs=[dict(np=2), dict(np=3)]),
         dict(name='np_one', src='p07.cpp', libs=['core'], opt='-O1', runs=[dict(np=3), dict(np=1)])]
RULE = ('a case is one process that creates and destroys library objects in a random order (nested, on the heap, in threads, with or without '
        'arguments), uses the library after every step while an object exists, and counts MPI initialisations, finalisations and buffer attachments; '
        'distinct = distinct (scenario, history of creations and destructions)')
ASSUMPTIONS = ['objects are destroyed in the thread that created them, and threads that use the library have an object of their own',
               'a process initialises MPI at most once (MPI allows no more): histories with several lives keep MPI initialised by the application',
               'this configuration defines no command-line options of its own, so all arguments must be preserved']
MIN_DISTINCT = 100
