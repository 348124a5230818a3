NA = {}
NOTE = {'*': 'Bounded: holds for every input within the bounds listed in the evidence file (string lengths, parameters); loops are unrolled until the solver '
             'shows they cannot continue. Trusts clang 18, the executor and bit-blaster in engine/, kissat/z3 and the string-stream model in shim/; '
             'counterexamples are reported only if a sanitised native build reproduces them.'}
