#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from jobs.py and the texts below."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, ROOT)
import jobs
T = {
 'P01': 'AddressSanitizer/LeakSanitizer/UBSan over random API programs incl. rejected calls, model oracle for survival',
 'P02': 'online monitor of acceptance at domain boundaries (predicate oracle per call), checked and unchecked builds',
 'P03': 'allocation-fault and throwing-expression injection at every point, snapshot and heap-balance monitor',
 'P04': 'online trace monitor against a sequence model over generated edit histories, under ASan+UBSan',
 'P05': 'online trace monitor against a matrix model over generated edit histories, under ASan+UBSan',
 'P06': 'online monitor of a pool of arrays against value models, aliasing and storage identity, under ASan+UBSan',
 'P07': 'online monitor of slice chains against an index model over guarded storage, under ASan+UBSan',
 'P08': 'online monitor of 2D slice chains against an index model over guarded storage, under ASan+UBSan',
 'P09': 'online monitor of many live views of one storage against one flat model, under ASan+UBSan',
 'P10': 'bit-exact monitor of expressions against built-in computation, under ASan+UBSan',
 'P11': 'online monitor of lazy re-evaluation and in-place updates in sanitized and optimised builds',
 'P12': 'monitor of structural functions against their definitions, under ASan+UBSan',
 'P13': 'executing every accepted temporary under ASan with destroyed owners and overwritten stack',
 'P14': 'bit-exact monitor of scalar operations against built-in operations, under UBSan',
 'P15': 'acceptance probes executed at run time against a table of allowed type combinations',
 'P16': 'monitor of scalar functions against exact integer and wide-precision oracles, under UBSan',
 'P17': 'monitor of reductions against exact or error-bounded oracles, under ASan+UBSan',
 'P18': 'monitor of predicates and searches against quantified definitions, under ASan+UBSan',
 'P19': 'monitor of compensated algorithms against exact multiple-precision oracles and a-priori error bounds, sanitized and optimised',
 'P20': 'range, coverage, termination and reproducibility monitor over generated requests, under ASan+UBSan',
 'P21': 'write/read round-trip monitor with independent parser of the printed text, under ASan+UBSan',
 'P22': 'grammar-oracle monitor over generated and mutated inputs, checked and unchecked builds, under ASan+UBSan',
 'P23': 'iterator-law and algorithm monitor against plain vectors, under ASan+UBSan',
 'P24': 'monitor of error measures against exact definitions, under ASan+UBSan',
 'P25': 'differential transcript monitor across build configurations and constant evaluation',
 'P26': 'ThreadSanitizer with result oracle over randomly scheduled threads',
 'P27': 'monitor of mapped storage and products against plain computation, under ASan+UBSan',
 'P28': 'address monitor (contiguity, alignment, identity) over edit histories, under ASan+UBSan',
 'P30': 'online monitor of whole programs against the same loops over plain vectors, statement by statement, sanitized and optimised',
 'P31': 'online monitor of exception texts, standard error and termination per violation, in exception, assertion and unchecked builds',
 'P32': 'online monitor of timer histories under an interposed clock, and of timed statements, under ASan+UBSan and optimised',
 'P29': 'differential monitor across storage kinds, under ASan+UBSan',
}
NOTE = ('Held on the generated executions reported in the evidence file (seeded, bounded by case count); trusts the oracle models in '
        'harness/, the compiler and its sanitizer runtimes. Paths the workload does not drive are not covered.')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in jobs.PROPS:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=T[i], level=jobs.PROPS[i].get('level', 'exploration'), level_note=NOTE))
    else:
        na.append(dict(property=i, reason='the monitor for this property is not built yet'))
m = dict(version=1, setup_cmd='python3 -c "import jobs" && g++ --version >/dev/null && mkdir -p evidence replays', checks=checks, not_applicable=na,
         notes='No hooks: monitors observe the library through its public interface; header-only sources are recompiled from /repo by each check.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
