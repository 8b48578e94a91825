import json, os
pend = 'no check yet: the contracts for the functions this property depends on are not written'
na = {'C%02d' % i: pend for i in range(1, 28)}
for c in ('C01','C02','C03','C04','C05','C06','C07','C12','C13','C18','C19','C20','C24'): na.pop(c)
na['C21'] = 'type soundness is a statement about a 25 kLOC C++ type inference engine over heap-allocated, mutually recursive type graphs with unification; no installed deductive verifier accepts that C++ and no first-order contract within reach expresses the typing relation'
na['C22'] = 'the parser is generated at run time from a PEG grammar file (cpp-peglib) and scoping is decided by a whole-tree name dominance analysis; there is no function-level specification of the accepted language to discharge, and the executable built here excludes the parser'
na['C23'] = 'needs a semantics for every IR construct and for the LLVM IR produced by the 3 kLOC llvisitor through the LLVM C++ API; the API calls have no contracts and LLVM is outside the verified code'
na['C24'] = 'reaching/dominator/capture analyses are fixpoints over pointer-keyed hash maps of heap CFG objects; a contract needs a path semantics for the graph that the installed verifiers cannot express over this C++'
na['C25'] = 'Boehm GC and pthreads are external libraries; the property is about their interaction with generated code (roots, finalizers, scheduling), which contracts on Codon\'s own functions cannot state'
na['C26'] = 'the meaning of the crossing values is defined by CPython and the C ABI, external code without contracts; the glue in stdlib/internal/python.codon only forwards pointers to it'
na['C27'] = 'the loops in numpy/loops.cpp are not built here (Highway is absent) and the array layer is generic Codon code over broadcasting iterators, beyond the reach of the Codon-subset front end'
json.dump(na, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'na.json'), 'w'), indent=1)
