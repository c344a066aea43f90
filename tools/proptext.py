"""property texts: single source of properties.jsonl and MANIFEST.json (python3 tools/mk.py)"""
TECH = 'contract-based deductive verification of the real code (LLVM IR of the current sources, SMT-discharged contracts)'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state,
                  observe=observe, note=note, na=na))


prop('C01', 'Unification succeeds exactly when possible and yields a most general unifier',
     'For any two well-formed terms and any acyclic set of current variable bindings, unification reports success if and only if some substitution compatible with the bindings makes the two terms equal. On success the bindings it leaves are exactly as general as required: a valuation satisfies them iff it satisfies the old bindings and makes the terms equal. It never creates a cyclic binding, so unification always performs the occurs check.',
     ['inputs', 'histories'], 'all pairs of finite terms over the encoded term language, all acyclic binding states, all sequences of earlier unifications',
     'Tests prove a couple of hundred theorems; a unifier that is wrong on one shape of nested terms (repeated variables, chains of bound variables, occurs check through a binding) changes no test result unless that shape decides a proof, and unsoundness shows up only as a wrong proof.',
     ['Reasoner/unify.c', 'Reasoner/unify.h', 'Db/dbdata.h'],
     [('wr_unify_term / wr_unify_term_aux', 'Reasoner/unify.c'), ('wr_occurs_in', 'Reasoner/unify.c'), ('wr_varval', 'Reasoner/unify.c'), ('wr_equal_ptr_primitives', 'Reasoner/unify.c')],
     state=[('variable banks', 'current bindings, one cell per variable', 'glb.varbanks'), ('trail', 'cells bound since the last clear', 'glb.varstack')],
     note='Every obligation of the five functions (memory bounds of the banks included) discharged for all inputs and all iterations; terms assumed well-formed and finite.')

prop('C02', 'Matching finds the instance substitution exactly when one exists',
     'One-sided matching of a pattern against a target reports success if and only if some substitution of the pattern variables, compatible with the bindings already made, turns the pattern into exactly the target term; the target is never changed and its variables are treated as constants. On success the bindings left are precisely that substitution. A constant never matches a compound term.',
     ['inputs', 'histories'], 'all pattern/target pairs of finite terms and all partial binding states',
     'Matching decides every subsumption and rewriting step; a wrong answer either silently deletes needed clauses or rewrites wrongly, which the example runs notice only when that very step decides the proof.',
     ['Reasoner/unify.c', 'Reasoner/unify.h'],
     [('wr_match_term / wr_match_term_aux', 'Reasoner/unify.c'), ('wr_equal_term_macroaux', 'Reasoner/unify.c')],
     state=[('variable banks', 'bindings of the pattern variables', 'glb.varbanks')],
     note='All obligations discharged for all inputs; pattern and target variables assumed disjoint where the caller renames them apart.')

prop('C03', 'Term equality is structural identity',
     'The term equality tests report equal exactly when the two terms are the same tree: same constants (numbers and short strings by value, symbols by identity), same variables, same argument counts and equal arguments. The comparison that ignores variable banks agrees, except that variables are identified when they have the same index within their bank.',
     ['inputs'], 'all pairs of finite well-formed terms',
     'Equality is used in every inference filter (duplicate literals, tautologies, subsumption); tests only sample a few terms and values, e.g. never two separately stored equal numbers deep inside different terms.',
     ['Reasoner/unify.c', 'Reasoner/unify.h'],
     [('wr_equal_term', 'Reasoner/unify.c'), ('wr_equal_term_macroaux and the WR_EQUAL_TERM macro', 'Reasoner/unify.c'), ('wr_equal_mod_vars_term', 'Reasoner/unify.c'), ('wr_equal_ptr_primitives', 'Reasoner/unify.c')],
     note='All obligations discharged for all inputs; long strings are interned (compared by identity).')

prop('C04', 'Binding trail records every binding and undo restores the earlier state',
     'Unification and matching change only variables that were unbound, and every variable they bind is recorded on the trail, whether they succeed or fail. Undoing the trail, completely or down to a mark, unbinds exactly the variables recorded since then and leaves every other binding untouched. A trail is reported to be a proper (non-renaming) substitution exactly when some recorded variable is bound to a non-variable.',
     ['histories', 'inputs'], 'all sequences of unifications, matchings and undos over all terms',
     'A binding that escapes the trail stays behind and corrupts some later, unrelated inference; tests cannot enumerate histories, and the corruption usually only loses or invents a proof far away.',
     ['Reasoner/unify.c', 'Reasoner/unify.h'],
     [('SETVAR inside wr_unify_term_aux and wr_match_term_aux', 'Reasoner/unify.c'), ('wr_clear_varstack, wr_clear_varstack_topslice, wr_clear_all_varbanks', 'Reasoner/unify.c'), ('wr_proper_substitution', 'Reasoner/unify.c')],
     state=[('trail', 'addresses of bound cells, element 1 is the next free position', 'glb.varstack')],
     note='All obligations discharged for all inputs; the trail vector is assumed long enough for every variable of the banks.')

prop('C17', 'Applying a substitution builds exactly the instance of a term or clause',
     'Building the instance of a term, literal list or whole clause under the current bindings yields exactly the term obtained by replacing every variable by its bound value, repeatedly; nothing else changes (functors, argument counts, literal order and signs, clause header). When renaming is on, the variables left over are replaced consistently by fresh variables of the target bank: the same variable always by the same new one, different variables by different ones, across all literals of the clause. When one subterm position is to be replaced (paramodulation, demodulation), exactly that position of the original term gets the replacement and every other part is the instance.',
     ['inputs', 'histories'], 'all terms and clauses, all acyclic binding states, all replacement positions, both renaming and non-renaming modes',
     'Every derived clause is built this way; two variables renamed to the same one, or one variable renamed twice, makes the prover unsound on the rare clause shape where it happens, and no test compares the built clause with the instance.',
     ['Reasoner/build.c', 'Reasoner/unify.c'],
     [('wr_build_calc_term', 'Reasoner/build.c'), ('wr_build_calc_cl', 'Reasoner/build.c'), ('wr_build_calc_term_replace', 'Reasoner/build.c'), ('wr_varval', 'Reasoner/unify.c')],
     state=[('rename counter', 'number of fresh variables handed out for the clause being built', 'glb.build_rename_vc')],
     note='All obligations discharged for all inputs with rewriting and evaluation of computable functions switched off during building (they are separate properties); the renaming variant of the replacement function is proved in the thorough tier and its substitution variant in both.')

prop('C08', 'Typed values stored in the database decode to the same value and type',
     'Encoding an integer (any 64-bit value), a double (any bit pattern), a character, a variable number, or a date or time within the documented range and decoding the result returns the identical value, the encoded datum reports the type it was encoded with, and integers and doubles are rejected only when no memory is left. The same holds when the datum is read through a local database attached to a shared knowledge base.',
     ['inputs'], 'all values of each type, with and without an attached knowledge base',
     'Values near the limits of the inline representations switch to separately allocated storage; a wrong boundary or tag corrupts only those values, and tests use small numbers.',
     ['Db/dbdata.c', 'Db/dbdata.h'],
     [('wg_encode_int / wg_decode_int', 'Db/dbdata.c'), ('wg_encode_double / wg_decode_double', 'Db/dbdata.c'), ('wg_encode_char, wg_encode_date, wg_encode_time, wg_encode_var and their decoders', 'Db/dbdata.c'), ('wg_get_encoded_type', 'Db/dbdata.c')],
     note='Each composition encode;type;decode is proved as a lemma over the inlined real functions for every value; the allocator is used through its contract (returns 0 or a fresh aligned object inside the segment).')

prop('C06', 'Arithmetic functions evaluate to the exact documented value or stay unevaluated',
     'Evaluating $sum, $difference, $product, $quotient, $quotient_e/_t/_f, $remainder_e/_t/_f (and the infix forms), $floor, $ceiling, $truncate, $round, $to_int, $to_real and $uminus on numbers gives the value the TPTP definition prescribes: integer results are exact over all 64-bit integers (Euclidean, truncating and flooring quotient and remainder each with its own rounding; $quotient of integers truncates), real results are the correctly rounded IEEE double operation. When a result is not representable (integer overflow, division by zero, infinite real), or an argument is not a number or is missing, the term is left exactly as it was. The result is allocated only in the local database.',
     ['inputs'], 'all pairs of 64-bit integers and doubles, all argument counts and argument types, for each function',
     'The tests evaluate a handful of small positive numbers; wrong rounding for negative divisors, overflow at the 64-bit limits or precision loss above 2^53 changes only results nobody sampled and makes the prover unsound.',
     ['Reasoner/build.c', 'Reasoner/build.h'],
     [('wr_compute_fun_arith2', 'Reasoner/build.c'), ('wr_compute_fun_arith1', 'Reasoner/build.c'), ('wr_gint_add_checked, wr_gint_sub_checked, wr_gint_mul_checked, wr_double_to_gint_checked', 'Reasoner/build.c'), ('wr_computable_termptr, wr_compute_from_termptr', 'Reasoner/build.c')],
     note='All obligations discharged for all inputs (64-bit integer arithmetic exact via a wrap-around preserving integer encoding, doubles in the SMT floating point theory); value encoding used through the contracts of C08; whether an integral real result is returned as an integer or a real is left open.')

prop('C07', 'Comparison, equality and number type built-ins decide correctly or not at all',
     '$less, $lesseq, $greater and $greatereq on two numbers evaluate to the truth of the exact mathematical comparison, also between integers and reals (no rounding of large integers), and stay unevaluated when an argument is not a number (except that syntactically identical arguments compare as equal). Built-in equality evaluates to true only for terms denoting the same value under every interpretation and to false only for different typed values: different numbers, distinct symbols, lists against numbers or distinct symbols, or lists differing at some position in such values; every pair of numbers or distinct symbols is decided. $is_int, $is_real and $is_number are true or false exactly according to the type of a number and false on distinct symbols.',
     ['inputs'], 'all pairs of terms (numbers of both types, distinct symbols, nested lists, constants, variables and other terms)',
     'An evaluation of true or false is used as a proof step; a wrong one for one combination of types or magnitudes makes the prover derive contradictions or lose proofs, on inputs no test contains.',
     ['Reasoner/build.c'],
     [('wr_compute_fun_lesseq_core', 'Reasoner/build.c'), ('wr_compute_fun_equal_terms, wr_compute_fun_equal', 'Reasoner/build.c'), ('wr_uri_is_unique, wr_uri_is_list, wr_record_is_list', 'Reasoner/build.c'), ('wr_computable_termptr, wr_compute_from_termptr', 'Reasoner/build.c')],
     note='All obligations discharged for all inputs; equality of terms is an induction over term size with the recursive calls replaced by the contract; syntactic equality is used through the contract proved under C03.')

prop('C31', 'List, string and symbol built-ins evaluate as documented',
     '$first and $rest of a list cell are exactly its first element and its remaining list, and are left alone on anything else. $is_list is true on list cells and the empty list and false on numbers and distinct symbols; $is_distinct is true exactly on distinct symbols and false on numbers and lists when it evaluates; no type predicate ever evaluates to something other than true or false. $strlen of a distinct symbol is its length; $substr(A,B) is true exactly if A occurs in B, and $substrat(A,B,C) is true exactly if A occurs in B at position C, for distinct symbols A and B and an integer C; with other arguments they are left alone.',
     ['inputs'], 'all argument terms, all symbol strings and positions, all argument counts',
     'The example files evaluate these on one or two terms; a wrong position, a partial comparison or a wrongly dispatched predicate shows only for particular strings and types.',
     ['Reasoner/build.c'],
     [('wr_compute_fun_list', 'Reasoner/build.c'), ('wr_compute_fun_str', 'Reasoner/build.c'), ('wr_compute_fun_arith1', 'Reasoner/build.c'), ('wr_compute_from_termptr', 'Reasoner/build.c')],
     note='All obligations discharged for all inputs; the libc string functions are trusted to mean what the C standard says; all accesses to the characters of symbols proved in bounds.')

prop('C05', 'Subsumption deletes a clause only if some other clause really subsumes it',
     'The clause subsumption test reports that one clause subsumes another only if some substitution of the first clause maps its literals to distinct literals of the second with the same signs (answer literals excepted, which may be skipped in single-answer mode). The given clause is reported as subsumed only if an active clause, or a stored ground unit equal to one of its literals, subsumes it, and back-subsumption marks only clauses that the given clause subsumes. All variable bindings made during the test are undone.',
     ['inputs', 'histories'], 'all pairs of clauses (facts, units, longer rules), all contents of the active clause lists and unit tables',
     'A wrong "subsumed" answer silently deletes a clause that may be needed, so the prover loses proofs or claims saturation; tests notice only when that very clause decides one of the example proofs.',
     ['Reasoner/subsume.c', 'Reasoner/unify.c'],
     [('wr_subsume_cl / wr_subsume_cl_aux', 'Reasoner/subsume.c'), ('wr_given_cl_subsumed', 'Reasoner/subsume.c'), ('wr_given_cl_backsubsume', 'Reasoner/subsume.c'), ('wr_active_subsumed_lit', 'Reasoner/subsume.c')],
     state=[('active subsumption list', 'blocks of meta information and clause offset', 'glb.clactivesubsume'), ('literal use marks', 'literals of the second clause already used', 'glb.tmp_litinf_vec')],
     note='All obligations discharged for all inputs in the standard (non instance generation) strategy; the pre-filters on clause metadata may only skip candidates. Equality and matching contracts are proved under C02 and C03, hash lookup under C19.')

prop('C20', 'A derived clause consists exactly of the instances of its kept literals',
     'When a derived clause is assembled from its parents, every literal of a parent except the resolved one appears in the result as its instance under the unifier with the same sign, every literal of the result comes from such a parent literal, duplicates are merged (no two literals of the result have the same atom), and the clause is dropped only when it is a tautology, contains a literal that evaluates to true, or memory ran out. Removing cut literals keeps exactly the uncut ones. The stored clause contains exactly these literals, and it is stored as a plain fact only if it is a single positive atom without variables or nested terms.',
     ['inputs'], 'all parent clauses, unifiers, cut positions, replaced subterm positions and literal lists',
     'Every inference step passes here; a literal lost or a sign flipped makes the prover unsound, a wrongly dropped clause makes it incomplete, and tests compare only the verdict on a few hundred problems.',
     ['Reasoner/derive.c'],
     [('wr_process_resolve_result_aux', 'Reasoner/derive.c'), ('wr_process_resolve_result_remove_cuts', 'Reasoner/derive.c'), ('wr_derived_build_cl_from_initial_cl', 'Reasoner/derive.c'), ('wr_process_resolve_result_isrulecl', 'Reasoner/derive.c')],
     state=[('half-built clause', 'meta and atom pairs of the literals collected so far', 'glb.derived_termbuf')],
     note='All obligations discharged for all inputs against the contract of term building (proved under C17).')

prop('C24', 'Unit cutting removes a literal only if a unit clause refutes it',
     'While a derived clause is simplified with known unit clauses, a literal is removed only if the tables hold a unit clause of the opposite sign that is equal to it (ground units), that matches it, or, when no other open literal shares its variables, that unifies with it. Atoms and signs of the remaining literals do not change, the reported number of removed literals is exact, the clause is reported as subsumed only if a stored unit equals one of its literals or an equal clause is stored, and no variable bindings are left behind.',
     ['inputs', 'histories'], 'all half-built clauses and all contents of the unit tables, with and without an attached knowledge base',
     'Cutting a literal without a matching unit is unsound: it yields a stronger clause and possibly a bogus proof; the condition on shared variables matters only for rare clause shapes that no test exercises.',
     ['Reasoner/subsume.c'],
     [('wr_derived_cl_cut_and_subsume', 'Reasoner/subsume.c'), ('wr_derived_cl_strong_cut', 'Reasoner/subsume.c'), ('strongly_cut_atom', 'Reasoner/subsume.c')],
     state=[('ground unit tables', 'hash tables of ground unit clauses by sign', 'glb.hash_pos_groundunits, glb.hash_neg_groundunits'), ('unit lists', 'hash lists of all unit clauses by sign', 'glb.hash_pos_units, glb.hash_neg_units')],
     note='All obligations discharged for all inputs; unit clauses assumed to have variables of a bank of their own.')

prop('C14', 'A proof is reported only for an empty clause or a pure answer clause',
     'When binary resolution, factoring, reflexivity resolution or paramodulation has been applied to clauses, a proof is reported only if no literal at all is left after collecting every literal of the parent clauses except the resolved ones and removing those that known unit clauses refute, or if every literal left is an answer literal. Otherwise the derived clause is kept in a queue with exactly the literals left, unless it is a tautology, is subsumed, exceeds a weight limit or memory ran out; a single-literal clause that is kept is also entered in the unit tables.',
     ['inputs', 'histories'], 'all parent clauses (units and longer rules), all contents of the unit tables, all outcomes of the simplification steps, with hyperresolution or propagation on and off',
     'A proof reported although a literal is left is a wrong answer to the user; a derived clause that silently disappears makes the prover incomplete. Tests compare the verdict on a few hundred problems, where such a clause shape, cut count or buffer state hardly ever decides.',
     ['Reasoner/derive.c', 'Reasoner/build.c'],
     [('wr_process_resolve_result', 'Reasoner/derive.c'), ('wr_process_factor_result', 'Reasoner/derive.c'), ('wr_process_paramodulate_result', 'Reasoner/derive.c'), ('wr_cl_derived_is_answer, wr_answer_lit', 'Reasoner/derive.c, Reasoner/build.c'), ('wr_process_resolve_result_cleanupsubst', 'Reasoner/derive.c')],
     state=[('proof flag', 'set when a contradiction or an answer was found', 'glb.proof_found'), ('half-built clause', 'literals collected so far', 'glb.derived_termbuf'), ('clause queues', 'kept clauses', 'glb.clpick_queues')],
     note='All obligations discharged for all inputs; collecting, cutting, compacting and building the clause are used through their contracts (C20, C24, C17).')

prop('C30', 'Paramodulation replaces the unified subterm by the equation\'s other side',
     'Every paramodulation step uses a positive equation of a clause and a non-variable proper subterm of a literal of another clause such that the subterm and one side of the equation are equal under the unifier, and replaces exactly that occurrence by the other side of the same equation. The index entries made when a clause becomes active name the occurrence they stand for: the literal number and the position stored with a subterm are those of that subterm in that clause, and the literal number and side stored with an equation are those of the equation; an occurrence that does not fit the index is left out, never misfiled. Equations and subterms from an attached knowledge base are treated alike, and no bindings stay behind.',
     ['inputs', 'histories'], 'all given clauses, all active clauses (including clauses of more than 255 literals and literals with very many subterms), all contents of the indexes, all strategy settings',
     'A position, literal number or side that is off by one replaces an equal-looking but different occurrence: an unsound step with a plausible derivation. Only unusual clause shapes (several equations per clause, deep or very long literals) reach it, and tests compare verdicts only.',
     ['Reasoner/resolve.c', 'Reasoner/clstore.c', 'Reasoner/derive.c'],
     [('wr_paramodulate_from_all_active', 'Reasoner/resolve.c'), ('wr_paramodulate_into_all_active, wr_paramodulate_into_subterms_all_active', 'Reasoner/resolve.c'), ('wr_cl_store_para_terms, wr_cl_store_para_subterms, wr_cl_store_eq_arg, wr_cl_store_term_rewriter', 'Reasoner/clstore.c'), ('wr_encode_para_termpath and its decoders', 'Reasoner/clstore.c'), ('wr_process_resolve_result_aux', 'Reasoner/derive.c')],
     state=[('paramodulation index', 'subterms and equation sides with clause and path', 'glb.hash_para_terms, glb.hash_eq_terms')],
     note='All obligations discharged for all inputs; the hash lists return only entries that were added to the table searched (assumed of the list functions), and unification and term building are used through the contracts of C01 and C17.')

prop('C33', 'Inference steps are made only on literals that really unify',
     'Binary resolution is applied only to a literal of the given clause and a literal of opposite sign of an active clause whose atoms are equal under the unifier; factoring only to two different literals of the same clause with the same sign whose atoms are equal under the unifier; reflexivity resolution only to a negative equation of the clause whose two sides are equal under the unifier. The clauses, literal numbers and clause length handed to the construction of the result are those of these literals, partners taken from an attached knowledge base included, every step starts from unbound variables, and none of them leaves bindings behind.',
     ['inputs', 'histories'], 'all given clauses, all contents of the literal indexes, all strategy settings, with and without an attached knowledge base',
     'Resolving literals of the same sign, or a step made under bindings left over from the previous one, is unsound; the indexes, signs and early exits that prevent it depend on strategy flags and clause shapes no test combines.',
     ['Reasoner/resolve.c'],
     [('wr_resolve_binary_all_active', 'Reasoner/resolve.c'), ('wr_factor', 'Reasoner/resolve.c'), ('wr_resolve_equality_reflexive', 'Reasoner/resolve.c')],
     state=[('literal indexes', 'active literals by sign', 'glb.hash_pos_atoms, glb.hash_neg_atoms'), ('trail', 'bindings of the current step', 'glb.varstack')],
     note='All obligations discharged for all inputs; unification and undoing of bindings are used through the contracts of C01 and C04, the literal index through the contract that its lists return only literals added with that sign.')

prop('C12', 'Index lookups find every stored literal that can unify',
     'For every literal of the given clause and every stored literal of opposite sign that unifies with it, the buckets searched by binary resolution include a bucket in which the stored literal was entered, and every node of such a bucket is tried; the same holds for unit clauses looked up when cutting literals. Equal constants and numbers have equal hashes, every hash is a position inside the tables, a symbol or number differing in representation only (stored inline or separately) hashes alike, and adding a literal to a hash list keeps all earlier entries.',
     ['inputs', 'histories'], 'all terms, all constants and numbers including those with extreme hash values, all contents of the literal and unit tables, with and without an attached knowledge base',
     'A lookup that misses a candidate only loses derivations: the prover times out or claims saturation on some problem. It needs particular combinations of ground prefixes, argument counts and variables (or a symbol with one particular 32-bit hash), which example problems hardly ever depend on.',
     ['Reasoner/hash.c', 'Reasoner/clstore.c', 'Reasoner/resolve.c', 'Reasoner/subsume.c', 'Reasoner/mem.c'],
     [('wr_atom_calc_prefhashes, wr_atom_calc_prefhashes_aux', 'Reasoner/hash.c'), ('wr_term_basehash', 'Reasoner/hash.c'), ('wr_cl_store_res_terms, wr_cl_store_res_units', 'Reasoner/clstore.c'), ('wr_resolve_binary_all_active', 'Reasoner/resolve.c'), ('strongly_cut_atom', 'Reasoner/subsume.c'), ('wr_clterm_add_hashlist_withpath, wr_clterm_hashlist_next', 'Reasoner/hash.c'), ('wr_alloc_from_cvec', 'Reasoner/mem.c')],
     state=[('literal indexes', 'active literals by sign, entered under hashes of their ground prefixes', 'glb.hash_pos_atoms, glb.hash_neg_atoms'), ('unit indexes', 'unit clauses by sign', 'glb.hash_pos_units, glb.hash_neg_units')],
     note='All obligations discharged for all inputs; the prefix of a literal is a recursive function over the term, and the step from equal instances to meeting buckets is a chain of lemmas by induction. String hash functions are functions of the characters (libc and the hash loops over characters used through that contract).')

prop('C19', 'What is stored in hash tables, lists and vectors is found again',
     'A literal pushed into a hash table of ground literals is found by every later lookup with an equal literal, whatever other literals share its bucket, and a lookup returns only a clause that was pushed with an equal literal. The hash of a term depends on nothing but the term (equal constants, numbers and strings hash alike, however they are stored) and selects a position inside the tables. A ground unit or two-literal clause is filed in the table of the sign of each of its literals, under that literal\'s own hash. Adding to a hash list keeps all earlier entries, walking it yields each entry. A vector holds every element stored in it until the position is overwritten, also when it has to grow, its recorded length never exceeds its memory block, and running out of memory is reported and loses nothing stored earlier.',
     ['inputs', 'histories'], 'all terms, all table contents and sizes, all hash values, all store positions, all allocation outcomes',
     'Every index of the prover rests on these; an entry lost when a bucket is reallocated or two literals collide silently costs derivations or duplicates, and needs particular collisions and sizes.',
     ['Reasoner/hash.c', 'Reasoner/mem.c', 'Reasoner/derive.c', 'Reasoner/rgenloop.c'],
     [('wr_push_offset_termhash, wr_find_offset_termhash, wr_find_offset_termbucket', 'Reasoner/hash.c'), ('wr_term_hash, wr_term_basehash, str_hash, str_dual_hash', 'Reasoner/hash.c'), ('wr_vec_store, wr_cvec_store, wr_cvec_push, wr_vec_realloc, wr_vec_new, wr_cvec_new', 'Reasoner/mem.c'), ('wr_clterm_add_hashlist_withpath, wr_clterm_hashlist_next', 'Reasoner/hash.c'), ('wr_add_cl_to_unithash, wr_add_cl_to_doublehash', 'Reasoner/derive.c'), ('wr_add_cl_to_active_unithash', 'Reasoner/rgenloop.c')],
     state=[('ground tables', 'ground units and two-literal ground clauses by sign', 'glb.hash_pos_groundunits, glb.hash_neg_groundunits, glb.hash_pos_grounddoubles, glb.hash_neg_grounddoubles'), ('vectors', 'element 0: length, element 1 of counted vectors: next free position', 'vec, cvec')],
     note='All obligations discharged for all inputs; term equality is used through the contract of C03, and memory allocation (libc, or the shared memory allocator) through the contract: null or a fresh block of the size asked for.')

prop('C13', 'Every clause put into the queues is eventually picked, none is lost',
     'A clause put aside for later is put at the end of the simple queue of one of the queue blocks, whatever its role and the strategy, and with its weight into a priority queue; everything waiting in the queues before stays there, in order, also when a queue has to grow. A pick from a priority queue takes the next clause of the best weight that has any, and nothing else; a pick from a simple queue takes the oldest clause not taken from it before. The priority queue of a block is used only as often in a row as the ratio says, then the oldest waiting clause of the block is taken; a block that has had its share gives way to the next one; and nothing is picked only if all blocks have been tried and their simple queues are used up. The queue of hyperresolution is first in, first out, and is started again only when everything in it has been taken.',
     ['inputs', 'histories'], 'all contents of the queues, all weights, roles, strategies and ratios, all interleavings of adding and picking',
     'Losing or starving a clause makes the search incomplete without any visible sign: the prover just finds other proofs, or none; it takes a particular filling of the queues to show.',
     ['Reasoner/clstore.c', 'Reasoner/mem.c'],
     [('wr_push_cl_clpick_queues, wr_pick_from_clpick_queues, wr_pick_from_clpick_queues_aux', 'Reasoner/clstore.c'), ('wr_push_priorqueue, wr_pick_priorqueue', 'Reasoner/clstore.c'), ('wr_push_cl_hyper_queue, wr_pick_from_hyper_queue', 'Reasoner/clstore.c'), ('wr_cvec_push, wr_vec_realloc', 'Reasoner/mem.c')],
     state=[('queue blocks', 'simple queue, priority queue, next position, ratios and counters per block', 'glb.clpick_queues'), ('hyper queue', 'partly derived clauses of hyperresolution', 'glb.hyper_queue')],
     note='All obligations discharged for all inputs, per operation; that every clause is picked after finitely many picks follows from the counters shown to grow and to be reset. That the main loop calls these operations, and what happens to a clause once picked, is not part of this property.')

prop('C25', 'Simplification drops literals and clauses only when they are redundant',
     'When a clause is picked or has been derived and is simplified, a literal is removed only if a stored ground unit clause contradicts it, or if a stored two-literal ground clause consists of its complement and of another literal of the same clause, and at most one literal is removed by such a pair, or if the literal computes to false. Every other literal is in the simplified clause with its sign, as it was or as computed and rewritten. A clause is dropped only if it contains a literal and its negation, a literal that computes to true, or a literal that is a known unit clause (a one-literal clause that was not rewritten is never dropped for this reason, since it may be that unit itself), or if memory ran out. A proof is reported only if every literal was removed for these reasons or the clause left consists of answer literals.',
     ['inputs', 'histories'], 'all clauses, all contents of the unit and double tables, all outcomes of computing and rewriting, with and without an attached knowledge base',
     'A literal dropped without a reason makes the prover unsound, a clause dropped without one makes it incomplete; the two-literal case needs a particular pair of ground clauses and clause shape that tests hardly contain.',
     ['Reasoner/simp.c', 'Reasoner/subsume.c', 'Reasoner/derive.c'],
     [('wr_simplify_cl, wr_simplify_doublecut_cl', 'Reasoner/simp.c'), ('wr_atom_cut_and_subsume', 'Reasoner/subsume.c'), ('wr_atom_doublecut, wr_atom_doublecut_aux', 'Reasoner/subsume.c'), ('wr_tautology_cl', 'Reasoner/derive.c'), ('wr_add_cl_to_unithash, wr_add_cl_to_doublehash', 'Reasoner/derive.c')],
     state=[('ground unit tables', 'ground unit clauses by sign', 'glb.hash_pos_groundunits, glb.hash_neg_groundunits'), ('double tables', 'two-literal ground clauses by sign and literal', 'glb.hash_pos_grounddoubles, glb.hash_neg_grounddoubles')],
     note='All obligations discharged for all inputs; computing and rewriting a literal, and building the resulting clause, are used through their contracts (C06, C07, C17, C20). That rewriting itself preserves equality is not part of this property.')

# ---- not claimed ----
NA = lambda id, title, st, why, files, na, over=('inputs',): prop(id, title, st, list(over), 'all inputs', why, files, [(f, f) for f in files], na=na)
NA('C40', 'Shared database locks keep readers and writers apart',
   'Whenever several processes attach the same shared memory database, no writer holds the write lock while another process holds a read or write lock, and every process that waits for a lock eventually gets it.',
   'Needs particular interleavings of several processes.', ['Db/dblock.c'],
   'A property of interleavings of several processes; a sequential contract of one function against exclusive memory cannot state it, and no installed deductive verifier for C has a concurrent separation logic.', over=['schedules'])
NA('C41', 'The prover finds a proof whenever one exists',
   'With a complete strategy and unlimited time and memory, every unsatisfiable clause set leads to a derived contradiction.',
   'A statement about infinite runs.', ['Reasoner/rgenloop.c'],
   'Refutational completeness is a meta-theorem about infinite fair derivations; it is not expressible as function contracts (the local parts it rests on are claimed as C01, C05, C12, C20).', over=['histories'])
NA('C42', 'Time and memory limits stop the prover',
   'A run stops within the time limit given and reports the reason; memory exhaustion is reported instead of a wrong answer.',
   'Depends on real time and on exhausting memory at an arbitrary point.', ['Reasoner/rmain.c', 'Reasoner/rgenloop.c'],
   'Wall-clock behaviour (clock(), alarm, fork and wait of worker processes) is outside what contracts over sequential memory can decide.', over=['schedules', 'faults'])
NA('C43', 'An interrupted dump or import leaves a usable database',
   'A crash while dumping, logging or importing a database leaves either the old or the new contents readable.',
   'Needs a crash at a particular point of file output.', ['Db/dbdump.c', 'Db/dblog.c'],
   'The code makes no atomic-replacement guarantee (the dump file is written in place), and crash points between system calls have no representation in function contracts.', over=['crash points'])
NA('C44', 'The printed proof is a correct derivation of the contradiction',
   'Each step of the printed proof follows from its named parents by the named rule, and the leaves are input clauses or standard clausification steps.',
   'Would have to be checked for every problem.', ['Reasoner/printerrutils.c', 'Reasoner/history.c'],
   'The steps themselves are claimed (C01, C14, C17, C20, C30, C33); the printed text is produced by printf-style output code (strings of several thousand lines) whose meaning would need a grammar of the output in the logic; not within reach of this verifier.')
NA('C45', 'Parsing and clausification preserve satisfiability of the problem',
   'The clause set built from a TPTP, Otter-syntax or JSON problem is satisfiable exactly if the problem is.',
   'Any formula shape can occur.', ['Parser/dbotter.y', 'Parser/dbclausify.c'],
   'The front ends are generated bison/flex tables and mutually recursive rewriting of heap-allocated formula lists with quantifier scopes; a contract would need a semantics of first-order formulas with binding over the list encoding, beyond what this tool can express today.')
