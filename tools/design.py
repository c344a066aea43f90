"""writes DESIGN.md: fixed text (design_head.md, design_tail.md), per property method, contracts, planted changes, assumptions"""
import json, os, sys, glob, re
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path[:0] = [H, V + '/specs', V + '/irv']
import importlib, proptext, props
from driver import REG
for p in props.PROPS.values():
    for m in p['modules']:
        importlib.import_module(m)
METHOD = {
 'C01': 'Ghost semantics: an arbitrary valuation V of the variables; `val(t)` the ground tree of t under V; `SAT(banks)` V satisfies the bindings. wr_unify_term_aux: returns 1 ⇒ (SAT(new) ⇔ SAT(old) ∧ val(x)=val(y)); returns 0 ⇒ ¬(SAT(old) ∧ val(x)=val(y)) for every V; acyclicity of bindings by a ghost rank; wr_occurs_in exact. As V is arbitrary this is "mgu". Loop over arguments: invariant over the prefix already unified. Recursion through its own contract.',
 'C02': 'Same theory, one-sided: match binds only pattern variables, success ⇔ the target is an instance under the earlier bindings.',
 'C03': 'wr_equal_term ⇔ val equal for every V (completeness by distinguishing constants); numbers by exact value, strings by content identity; wr_equal_mod_vars_term.',
 'C04': 'The trail is a ghost log: every binder extends it by exactly the cells it assigns (new-entries-are-cells, new-log-only-unassigned); clearing (whole / top slice / all banks) restores exactly; frame: nothing else in the banks changes.',
 'C05': 'SUBS: ghost relation "literals from i on can be mapped to distinct unused literals". wr_subsume_cl_aux proved to imply it by induction over the literal number (recursion by contract); forward and backward lists: reported/deleted clause is subsumed by the clause named.',
 'C06': 'Each built-in: result = specified function on 64-bit integers (overflow → not evaluated) or IEEE doubles, with the TPTP rounding variants; case names bound to codes (contract `names`), dispatch contract: functor → operation → argument order. NIA translation for multiplication/division.',
 'C07': 'Comparison of integers and doubles by exact value (mixed comparisons without lossy conversion), term equality decided true/false only when certain; answers undefined on non-ground terms.',
 'C08': 'Round trip: decode(encode(v)) = v for every 64-bit int, double, char, date, time, var number; encodings of different values of a type differ; type tags right; memory written only in the newly allocated object.',
 'C12': 'Ghost prefix W of a term (a recursive function over the term); store contract: entered in bucket(|W|-1, prefix j) for every j; lookup contract: all buckets searched; lemmas by induction: prefix of an instance extends the prefix, equal instances agree on the prefix, hence buckets meet. List contracts: add keeps existing nodes, walk visits all, node memory fresh.',
 'C14': 'The literals collected are a ghost multiset with per-literal provenance; proof_found is set only when the count after cuts is 0 or the clause is a pure answer clause; otherwise the clause is queued with exactly the literals not cut. Three inference kinds × hyper/propagate modes.',
 'C17': 'Builders: val of the result under V = val of the input under V composed with the bindings; renaming is injective, fresh variables only; comparison by the arbitrary valuation; clause builders literal-wise with sign kept; replace variant: exactly the numbered occurrence.',
 'C20': 'PRES/PRESX ghost predicates over the half-built clause: every kept literal of a parent present with its sign, every literal comes from one, no duplicates; dropping only for listed reasons; cut removal compacts in order; the built record equals the buffer.',
 'C24': 'Ghost count of cut marks; a mark is made only after a unit of the opposite sign is equal / matches / unifies (the latter only when at most one open literal has variables).',
 'C30': 'Positions are ghost preorder numbers (CNT/OFFS) with the path code an invertible packing (`path:code`, incl. limits); index entries describe the occurrence they name; the site contracts require, at each call of the paramodulation step, that the literal is a positive equation, sides and subterm are as named and equal under the unifier.',
 'C31': 'List, string and predicate built-ins over exact characters: all string accesses in bounds, answers only true/false/unevaluated as specified.',
 'C33': 'At each call of an inference processor: the atoms are literals of the named clauses, signs complementary (equal for factoring), unified from clear banks; banks clear afterwards.',
}
METHOD.update(getattr(proptext, 'METHOD', {}))
seeds = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json') + glob.glob(V + '/planted_more/*/meta.json')):
    d = json.load(open(f)); seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
o = [open(H + '/design_head.md').read(), '\n## 2. Properties\n']
for p in proptext.P:
    if p['na'] or p['id'] not in props.PROPS: continue
    P = props.PROPS[p['id']]
    o.append('### %s  %s\n' % (p['id'], p['title']))
    if p['id'] in METHOD: o.append(METHOD[p['id']] + '\n')
    fs = {}
    for l in P['contracts']:
        fs.setdefault((REG[l].fn or '-', REG[l].file or '-'), []).append(l)
    o.append('Contracts: ' + '; '.join('`%s`%s' % (fn, '' if ls == [fn] else ' (%s)' % ', '.join(ls)) for (fn, fl), ls in fs.items()) + '. Replay: ' + (', '.join('witness/%s' % w for w in P.get('witness', [])) or 'none') + '. Bound: none (proof). ' + p['note'] + '\n')
o.append('\n## 3. Planted changes and what catches them\n\nAll build, pass the 200 stable tests and have a demonstration (`seeded/<id>/`, or `planted_more/<id>/`: the same kind of change, set apart at the end only so that the last full vcheck fitted into the remaining time; each was run and caught on its own before). "Caught" = exit 1 with a VIOLATION line naming the property.\n\n| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
for pid in sorted(seeds):
    for n, d in seeds[pid]:
        o.append('| %s | %s | %s | %s | check %s |' % (n, pid, d['what_it_breaks'], d['needs'], d.get('caught', pid)))
A = {}
for f in sorted(glob.glob(V + '/evidence/*.json')):
    d = json.load(open(f))
    for a in d['assumptions']: A.setdefault(a, []).append(d['property'])
prev = V + '/tools/assumptions.json'
A = dict(json.load(open(prev)) if os.path.exists(prev) else {}, **A)
json.dump(A, open(prev, 'w'), indent=0)
o.append('\n## 4. Assumptions left unchecked\n')
for a, ps in A.items(): o.append('* %s — %s' % (a, ', '.join(ps)))
o.append('\n' + open(H + '/design_tail.md').read())
na = [p for p in proptext.P if p['na']]
if na:
    o.append('\n## 8. Not applicable\n')
    for p in na: o.append('* **%s %s**: %s' % (p['id'], p['title'], p['na']))
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
