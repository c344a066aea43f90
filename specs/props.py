TERM_LEMMAS = ['lemma:deref', 'lemma:occurs-size', 'lemma:occurs-intro', 'lemma:log-frame', 'lemma:nv-mono', 'scan:unify-config']
PROPS = {
    'C05': dict(modules=['subsume', 'tables'], contracts=['store:active-unit', 'subsume:literals', 'subsume:clauses', 'subsume:active-unit', 'subsume:forward', 'subsume:backward', 'lemma:log-frame', 'scan:unify-config'],
                witness=['clauses:subsume', 'clauses:lists']),
    'C20': dict(modules=['resolve'], contracts=['resolve:copy-literals', 'resolve:remove-cuts', 'resolve:build-clause', 'resolve:fact-or-rule', 'lemma:literals-frame', 'lemma:literal-found', 'scan:unify-config'],
                witness=['clauses:copy']),
    'C14': dict(modules=['process'], contracts=['infer:resolution', 'infer:resolution-hyper', 'infer:resolution-propagate', 'infer:factoring', 'infer:paramodulation', 'infer:cleanup', 'answer:clause', 'answer:literal', 'scan:unify-config'],
                witness=['clauses:infer']),
    'C24': dict(modules=['resolve', 'tables'], contracts=['store:ground-unit', 'store:ground-double', 'store:active-unit', 'hash:bucket', 'cut:ground-units', 'cut:units', 'cut:find-unit', 'lemma:literals-frame', 'lemma:literal-found', 'scan:unify-config'],
                witness=['clauses:cut', 'clauses:strong']),
    'C13': dict(modules=['queues'], contracts=['queue:push-priority', 'queue:pick-priority', 'queue:pick-block0', 'queue:pick-block1', 'queue:pick-block2', 'queue:pick-block3', 'queue:pick', 'queue:push', 'queue:pick-hyper', 'queue:push-hyper', 'queue:make-priority', 'queue:make-blocks',
                'vec:grow', 'vec:push', 'scan:unify-config'], witness=['hashes:queue']),
    'C25': dict(modules=['simp', 'tables'], contracts=['drop:tautology', 'simplify:unit', 'simplify:double-clause', 'simplify:double-table', 'simplify:doubles', 'simplify:clause', 'store:ground-unit', 'store:ground-double', 'hash:bucket', 'scan:unify-config'],
                witness=['hashes:simp']),
    'C30': dict(modules=['para', 'resolve'], contracts=['path:code', 'store:subterms', 'store:equation-side', 'store:rewriter', 'store:terms', 'site:paramodulation-from', 'site:paramodulation-into', 'site:paramodulation-into-all',
                'resolve:copy-literals', 'scan:unify-config'], witness=['sites:para']),
    'C33': dict(modules=['sites'], contracts=['site:resolution', 'site:factoring', 'site:reflexivity', 'scan:unify-config'], witness=['sites:res']),
    'C12': dict(modules=['index', 'resolve', 'vecs'], contracts=['index:constant-hash', 'hash:string', 'hash:dual-string', 'index:number-hash', 'index:prefix', 'index:prefix-start', 'lemma:prefix-grows', 'lemma:prefix-stops', 'lemma:prefix-agrees', 'lemma:buckets-meet',
                'store:literals', 'store:units', 'lookup:resolution', 'lookup:units', 'list:add', 'list:walk', 'lemma:list-insert', 'node:alloc', 'scan:unify-config'], witness=['sites:index']),
    'C19': dict(modules=['tables', 'hashes'], contracts=['hash:term', 'hash:string', 'hash:dual-string', 'index:constant-hash', 'index:number-hash', 'hash:push', 'hash:find', 'hash:bucket', 'store:ground-unit', 'store:ground-double', 'store:active-unit',
                'vec:vec-new', 'vec:vec-new-zero', 'vec:cvec-new', 'vec:cvec-new-zero', 'vec:grow', 'vec:store', 'vec:store-counted', 'vec:push', 'list:add', 'list:walk', 'lemma:list-insert', 'node:alloc', 'scan:unify-config'], witness=['hashes:all']),
    'C01': dict(modules=['unify'], contracts=['wr_equal_ptr_primitives', 'wr_varval', 'wr_occurs_in', 'wr_unify_term_aux', 'wr_unify_term'] + TERM_LEMMAS[:4] + TERM_LEMMAS[5:],
                witness=['terms:unify']),
    'C02': dict(modules=['unify'], contracts=['wr_equal_ptr_primitives', 'wr_equal_term_macroaux', 'wr_match_term_aux', 'wr_match_term', 'lemma:log-frame', 'scan:unify-config'],
                witness=['terms:match']),
    'C03': dict(modules=['unify'], contracts=['wr_equal_ptr_primitives', 'wr_equal_term_macroaux', 'wr_equal_term', 'wr_equal_mod_vars_term', 'scan:unify-config'],
                witness=['terms:equal']),
    'C17': dict(modules=['build'], contracts=['wr_varval', 'wr_build_calc_term:subst', 'wr_build_calc_term:copy', 'wr_build_calc_term:rename', 'wr_build_calc_cl:subst', 'wr_build_calc_cl:rename',
                                              'wr_build_calc_term_replace:subst', 'wr_build_calc_term_replace:rename'],
                witness=['build:subst', 'build:copy', 'build:clause', 'build:replace']),
    'C08': dict(modules=['data'], contracts=['encode:' + k for k in ('int', 'int-kb', 'double', 'double-kb', 'char', 'date', 'time', 'var')], witness=['data']),
    'C06': dict(modules=['arith', 'unify'], contracts=['arith2:' + k for k in ('PLUS', 'MINUS', 'MULT', 'DIV', 'QUOTIENT_E', 'QUOTIENT_T', 'QUOTIENT_F', 'REMAINDER_E', 'REMAINDER_T', 'REMAINDER_F')]
                + ['arith1:' + k for k in ('TO_INT', 'TO_REAL', 'FLOOR', 'CEILING', 'TRUNCATE', 'ROUND', 'UMINUS')] + ['names', 'dispatch:arithmetic', 'scan:unify-config'], witness=['arith:arith']),
    'C07': dict(modules=['arith', 'unify'], contracts=['compare:less', 'compare:lesseq', 'compare:greater', 'compare:greatereq', 'equal:terms', 'equal:term', 'symbol:wr_uri_is_unique',
                'symbol:wr_uri_is_list', 'symbol:wr_record_is_list', 'arith1:IS_INT', 'arith1:IS_REAL', 'arith1:IS_NUMBER', 'names', 'dispatch:comparison', 'scan:unify-config'], witness=['arith:compare']),
    'C31': dict(modules=['arith', 'unify'], contracts=['list:first', 'list:rest', 'list:is-list', 'string:IS_SUBSTR', 'string:IS_SUBSTRAT', 'arith1:STRLEN', 'arith1:IS_LIST', 'arith1:IS_MAP',
                'arith1:IS_ATOM', 'arith1:IS_UNIQUE', 'symbol:wr_uri_is_unique', 'names', 'dispatch:lists-strings', 'scan:unify-config'], witness=['arith:lists']),
    'C04': dict(modules=['unify'], contracts=['wr_unify_term_aux', 'wr_match_term_aux', 'wr_unify_term', 'wr_match_term', 'wr_clear_varstack', 'wr_clear_varstack_topslice',
                                              'wr_proper_substitution', 'wr_clear_all_varbanks', 'lemma:log-frame', 'lemma:nv-mono', 'scan:unify-config'],
                witness=['terms:trail']),
}
