AI = 'abstract interpretation of the parsed source (affine/zone/predicate domains, helper inlining, loops widened)'
prop('S01', 'Word alignments are charged the documented edit costs',
     'Whatever the two words, the word alignment charges 0 for equal words, 4 for a substitution, 3 for an insertion or deletion, 2 for inserting or deleting an optionally deletable word, 0.001 for inserting or deleting the null word and 1 for null against null. '
     'Time-mediated alignment charges the begin- plus end-time differences (0.001 more if the words differ) and the duration of an unpaired word; weighted scoring charges the weights of the words involved. '
     'The system-combination alignment differs only in charging 1 for null against a word and in letting synchronisation marks pair only with identical marks.',
     ['inputs'], 'every pair of words (present/absent, null, optionally deletable, equal or not, synchronisation mark or not)',
     'the tests align a few dozen files; rare combinations of null, optionally deletable and synchronisation words on either side do not occur in them',
     ['src/sclite/word.c'], [('wwd_WORD', 'src/sclite/word.c'), ('wwd_WORD_rover', 'src/sclite/word.c'), ('wwd_time_WORD', 'src/sclite/word.c'), ('wwd_weight_WORD', 'src/sclite/word.c')],
     AI + ': decision table over all predicate valuations', 'complete over the predicate abstraction (absent, null, optional, equal, sync); assumes the string library functions behave as specified')
prop('S02', 'The word alignment chosen is a cheapest one',
     'For every pair of word networks the alignment search fills each cell with the least of the insertion, deletion and substitution continuations over all predecessor arcs, together with the move that attains it, and ends at the cheapest pair of final arcs. '
     'No cell, predecessor or final arc is skipped.',
     ['inputs'], 'all pairs of reference and hypothesis networks, including alternations and optionally deletable words',
     'tests compare a few fixed alignments; a wrong tie or a skipped predecessor only shows for particular networks',
     ['src/sclite/net_dp.c'], [('calculate_internal_cells', 'src/sclite/net_dp.c'), ('calculate_margin_cells', 'src/sclite/net_dp.c'), ('calc_minimum_insert/delete/substi', 'src/sclite/net_dp.c'), ('extract_NET_ALIGN_result', 'src/sclite/net_dp.c')],
     AI + ': inductive step of the DP recurrence proved per loop iteration with a zone domain', 'decides the recurrence, its coverage of the matrix and the final selection; assumes arcs are stored in topological order by the network traversal and exact arithmetic')
prop('S03', 'Alignment items state faithfully what happened to each word',
     'Every step of the chosen alignment becomes exactly one item: a word paired with nothing is a deletion (reference) or insertion (hypothesis), or correct if it is optionally deletable, and two paired words are correct exactly when they compare equal and a substitution otherwise. '
     'Steps over null words yield no item unless nulls are requested, and no word of either side is left out or duplicated.',
     ['inputs'], 'all alignments, with and without null and optionally deletable words',
     'tests contain few optionally deletable or null words on the hypothesis side and never check each item against its move',
     ['src/sclite/net_dp.c'], [('extract_NET_ALIGN_result', 'src/sclite/net_dp.c')],
     AI + ': per-iteration effects of both back-trace loops against a decision table', 'complete over all paths of one back-trace step')
prop('S04', 'Each alignment item is counted exactly once, in its own category',
     'When an utterance is added to a speaker\'s scores, every item increments exactly the counter of its category (correct, substitution, deletion, insertion) by one and contributes its words\' weights to exactly the totals that category calls for. '
     'Each utterance adds one sentence, and one erroneous sentence exactly if it contains an error; per-utterance counts recomputed for reports agree.',
     ['inputs', 'histories'], 'all alignments and all sequences of utterances',
     'weighted totals and sentence counts are only compared for a few fixed inputs',
     ['src/sclite/scores.c', 'src/sclite/path.c', 'src/sclite/sc_dtl.c', 'src/sclite/lur.c'], [('add_PATH_score', 'src/sclite/scores.c'), ('item counting loops', 'src/sclite/path.c, sc_dtl.c, lur.c')],
     AI + ': effect summary of one item per category', 'complete over all paths through the accounting loops')
prop('S05', 'Reports print the quantity their labels and columns name',
     'In every scoring report (speaker summary, raw and weighted variants, executive and multi-system summaries, sentence, speaker and overall detail, per-label, alignment header) each labelled line and table cell is the count or percentage its label, column heading and row name: '
     'percentages of word categories are of the reference words (correct + substituted + deleted) of the same scope, sentence percentages are of the sentences, errors are substitutions + deletions + insertions, accuracy is 100 minus the error rate, Mean/S.D./Median rows are that statistic of that column. '
     'Totals sum over every speaker and utterance in scope, start from zero, and skip none.',
     ['inputs'], 'all sets of scored utterances, speakers and systems, in every report mode',
     'reports are compared for fixed files in which many of these quantities coincide; a wrong base or a total carried over shows only for particular combinations of counts, speakers or systems',
     ['src/sclite/scores.c', 'src/sclite/sc_dtl.c', 'src/sclite/lur.c', 'src/sclite/path.c'],
     [('print_system_summary, print_N_system_summary, print_N_system_executive_summary', 'src/sclite/scores.c'), ('score_dtl_*', 'src/sclite/sc_dtl.c'), ('compute_label_scores, create_report, create_N_lur_report', 'src/sclite/lur.c'), ('PATH_n_print', 'src/sclite/path.c')],
     AI + ': quantity-type inference (linear forms over item categories with a scope level) checked against label and column text', 'decides numerator, base, scope and placement of every printed value; rounding, the statistics routines and the statistic rows of the multi-system summary are not decided')
prop('S06', 'Words compare equal exactly as the comparison rules say',
     'Two words are equal exactly when their texts (without the parentheses of an optionally deletable word) are the same, character by character over their whole length; a missing word equals nothing. '
     'When fragments count as correct, a text with a trailing hyphen (or else a leading one) equals any word that starts (ends) with the rest of its text, and nothing else makes two different words equal. '
     'Comparison ignores case only where a case-insensitive comparison was asked for, and a counted comparison looks at exactly that many characters.',
     ['inputs'], 'all pairs of words, of any length, fragment or not, in either case mode',
     'few tests contain fragments, and none with a fragment longer than, or exactly as long as, the other word',
     ['src/sclite/word.c', 'src/sclite/text.c'], [('equal_WORD2, equal_WORD_wfrag, equal_WORD', 'src/sclite/word.c'), ('TEXT_strcmp, TEXT_strcmp_master, TEXT_strCcmp', 'src/sclite/text.c')],
     AI + ': decision table of the word comparison and inductive step of the string comparison', 'complete over the predicate abstraction; assumes the C string library')
prop('S07', 'Case folding follows the language profile and the encoding',
     'Case-insensitive comparison and case conversion change exactly the letters of the selected language profile and encoding: each lower-case letter of the language\'s alphabet maps to its own upper-case letter and back, and every other character is left alone. '
     'UTF-8 characters are decoded and encoded to the same code point whatever their length, text is cut only at character boundaries, and an unknown encoding or profile is refused.',
     ['inputs'], 'every character of every supported encoding and language profile',
     'tests hold text in a few of the profiles and only a few of their letters',
     ['src/sclite/text.c'], [('case tables, TEXT_set_lang_prof, TEXT_set_encoding, TEXT_nbytes_of_char, get_UTF8_code, TEXT_str_to_upp/low', 'src/sclite/text.c')],
     AI + ': table facts against Unicode case pairs, bit-provenance analysis of the UTF-8 coder, folding per encoding', 'tables complete; conversion complete per encoding over one character')
prop('S08', 'Error-word lists name every error word with its exact count',
     'In the detailed speaker and overall reports the lists of confusion pairs, insertions, deletions, substitutions and falsely recognised words take up each alignment item of that category exactly once and no other item, under the word of the side the list is about (both, for confusion pairs), whatever the number of distinct words. '
     'Each printed line shows one word with its own count, every word taken up is listed, and the total is the sum of the counts. '
     'The multi-system list counts a reference word exactly when no system recognised it.',
     ['inputs', 'histories'], 'all alignments, any number and order of distinct words',
     'the lists grow and are kept sorted as words arrive; tests see a few orders and small lists, and the multi-system list not at all',
     ['src/sclite/sc_dtl.c', 'src/sclite/alex.c', 'src/sclite/corresp.c'], [('locate_*, score_dtl_spkr, score_dtl_overall', 'src/sclite/sc_dtl.c'), ('AUTO_LEX_insert, AUTO_LEX_find, index_search, AUTO_LEX_printout', 'src/sclite/alex.c'), ('lattice_error', 'src/sclite/corresp.c')],
     AI + ': per-item effects by category, inductive step of the bisection, insertion and growth of the word list', 'complete over one item, one search step and one insertion; the order in which lines are printed is not decided')
prop('S09', 'Rover outputs the highest-scoring word of every set of competing words',
     'For each set of competing words rover writes one word whose score is highest in the set, or nothing if that is the null word. '
     'With alpha from -a, n words in the set and k of them equal to the word, the score is alpha*k/n + (1-alpha)*c, where c is the mean (meth1) or the largest (maxconf) of the confidences of those k words, or the sum of their confidences divided by the sum over the set (avgconf; nothing is added when that sum is zero). '
     'The begin time, duration and confidence written are the means over the k words; oracle writes every distinct word of the set as an alternative, putat every word.',
     ['inputs'], 'every set of competing words: any number of systems, any agreement between them, any confidences, alpha and null confidence',
     'the test suite does not run rover\'s voting at all',
     ['src/sclite/rover.c'], [('print_linear', 'src/sclite/rover.c'), ('proc_args', 'src/sclite/rover.c')],
     AI + ': candidate statistics, score formula (exact polynomial identity) and selection per loop iteration', 'complete over one set; rounding of printed times and the maxconfa variant are not decided')
prop('S10', 'Rover combines every word of every system exactly once',
     'Rover merges the systems in the given order into the first one. Within each file and channel, a word aligned with a set already built joins that set; a system with no word there contributes one null word; and a word no earlier system has opens a new set of its own, in its place in time, in which each earlier system has one null word, so that every set holds exactly one entry per system. '
     'Every word of every system, from the first to the last of each file and channel, takes part with its own text, times and confidence, none twice and none in another channel\'s sets; null words carry the null confidence. '
     'Systems that are not at the same file and channel are refused with a failure status.',
     ['inputs', 'histories'], 'any number of systems, files, channels, words and silences between them',
     'the test suite does not run rover\'s combination at all',
     ['src/sclite/net_dp.c', 'src/sclite/net_adt.c', 'src/sclite/mfa.c', 'src/sclite/rover.c', 'src/sclite/fillmrks.c', 'src/sclite/word.c'],
     [('create_alinged_NETWORK, Network_dpalign_n_networks', 'src/sclite/net_dp.c'), ('Network_create_from_WTOKE, NETWORK_insert_arc_*', 'src/sclite/net_adt.c'), ('find_common_silence, gap_at_times, locate_next_file_channel', 'src/sclite/mfa.c'), ('perform_mfalign_v1, mfalign_ctm_files_v1', 'src/sclite/rover.c'), ('locate_boundary', 'src/sclite/fillmrks.c')],
     AI + ': effects of one merge step per move, of one system, one word, one section', 'complete over one step of each loop; where a section is cut and the reading of the files are not decided')
prop('S11', 'Time-marked scoring: every segment once, against the words in its time span',
     'With an stm reference and a ctm hypothesis, every reference segment of every file and channel is scored exactly once, under its own speaker, label, file, channel and times, unless its text says it is to be ignored (or, with -m ref, it ends before the first or begins after the last hypothesis word of its channel). '
     'Its words are those not used by earlier segments whose midpoint lies before the segment\'s end; the last segment of a channel takes all the rest, an alternation is taken as a whole by its largest midpoint, and no word is used twice or passed over except with an ignored segment. '
     'With -m hyp exactly the words that end before the first or begin after the last scored segment are left out. '
     'A channel without hypothesis words is aligned with nothing, and hypothesis words left when the reference is used up make the scoring fail.',
     ['inputs'], 'any number of files, channels, segments and words, with and without alternations, in any time order',
     'tests hold a handful of conversations in which nearly every word falls inside a segment and every channel is in both files',
     ['src/sclite/stm2ctm.c', 'src/sclite/stm.c', 'src/sclite/fillmrks.c'],
     [('align_ctm_to_stm_dp, align_one_channel, segment_hyp_for_utt', 'src/sclite/stm2ctm.c'), ('locate_STM_boundary, fill_STM_structure', 'src/sclite/stm.c'), ('locate_WTOKE_boundary, fill_WTOKE_structure', 'src/sclite/fillmrks.c')],
     AI + ': effects of one file and channel, one segment and one word on every path, with the loop exits', 'complete over one step of each loop; the parsing of lines is not part of it (S13), -m marks are decided on the loops that set them')
prop('S12', 'Transcript scoring: every utterance once, with the reference of its id',
     'With trn input every hypothesis utterance (one per line that is neither a comment nor blank, the last included even without a newline) is aligned exactly once, with the reference text of the same id, and scored once under the speaker its id names (rm, swb and spu_id: the text up to the first hyphen or else underscore; wsj and atis: the first three characters; sp: the whole id). '
     'Ids are compared as whole texts, ignoring case unless -s is given. '
     'An id that is missing in the reference, is used twice in the hypothesis, has two different reference texts, names no speaker, or cannot be found on its line makes the run fail. '
     'What the options ask for (optionally deletable words, fragments, characters, case, weights) is applied once to the reference and the hypothesis words alike and only when asked for; a speaker not seen before starts with all counts at zero and keeps them when more speakers arrive.',
     ['inputs'], 'any number of utterances, speakers and references in any order, any id type and option set',
     'tests hold a few well-formed transcripts with short ids and one reference each; the failure cases are not run at all',
     ['src/sclite/align.c', 'src/sclite/text.c', 'src/sclite/scores.c'],
     [('load_refs, align_trans_mode_dp, remove_id, extract_speaker, network_dp_align_texts', 'src/sclite/align.c'), ('TEXT_is_comment, TEXT_is_empty', 'src/sclite/text.c'), ('SCORES_get_grp', 'src/sclite/scores.c')],
     AI + ': effects of one line, one id, one utterance and one option combination on every path', 'complete over one step of each loop; the splitting of a text into words is not part of it')
prop('S13', 'Time-marked input: every line one word or segment, every field in its place',
     'Every ctm line that does not begin with a semicolon becomes exactly one word with its own file, channel, begin time, duration, text and confidence (0 and not counted as given when missing or NA); a begin time after && is marked as bad, and a word is part of an alternation from <ALT_BEGIN> to <ALT_END>. '
     'Every stm line that is neither a comment nor blank becomes exactly one segment: file, channel, speaker, begin, end, a label if the next field begins with "<", and the whole rest of the line as text. '
     'Lines may be of any length and fields separated by any blanks and tabs. A line without one of its first five fields makes the run fail. '
     'However many lines there are and however they are spread over files, none is lost, repeated or overwritten when the lists are moved or grow, and case is folded exactly unless -s is given.',
     ['inputs'], 'any number and length of lines, any number of files, any point at which the lists are full',
     'tests read small well-formed files in which the lists rarely move and never fill up within a file',
     ['src/sclite/fillmrks.c', 'src/sclite/stm.c', 'src/sclite/text.c'],
     [('fill_mark_struct', 'src/sclite/fillmrks.c'), ('read_stm_line, parse_stm_line, fill_STM', 'src/sclite/stm.c'), ('TEXT_ensure_fgets, TEXT_strtok', 'src/sclite/text.c')],
     AI + ': string contents tracked from field to record, effects of one line, inductive step of the line reader and the field splitter', 'complete over one line; fields longer than 499 bytes are cut and not part of it')
prop('S14', 'Every word of a text becomes one word of the network; alternatives are paths',
     'When a text is read for alignment, every run of characters other than white space becomes exactly one word of its network, in the order of the text and with all of its bytes: the part up to the first unescaped semicolon is the word, the next two fields are its tags, and an escaping backslash and one closing star are left out. '
     'An alternation between braces becomes one path per alternative, between the places where the alternation stands and however deep alternations are nested; words and alternations before and behind it stay connected with every path. The words of a ctm range that are not to be ignored become words with their times and confidence, an empty alternative between marks a null word. '
     'Text of any length is read to its end; a word that is too long, an alternation that is not closed or an alternative without a word makes the reading fail and is never dropped silently. A walk over a network visits every word once, in order only after all words leading to it.',
     ['inputs'], 'every text: any number and length of words, any nesting of alternations, any escapes and tags, any ctm range',
     'tests hold a few nestings of short words; the failures and escapes are not tested',
     ['src/sclite/net_adt.c', 'src/sclite/text.c', 'src/sclite/word.c', 'src/sclite/addarc1.c', 'src/sclite/delarc1.c', 'src/sclite/mnode1.c', 'src/sclite/marc1.c'],
     [('find_next_TEXT_token, find_next_TEXT_alternation, TEXT_strBdup_noEscape', 'src/sclite/text.c'), ('Network_create_from_TEXT, expand_alternates, Network_create_from_WTOKE, Network_merge_network, Network_delete_arc, NETWORK_insert_arc_*, Network_traverse', 'src/sclite/net_adt.c'), ('new_WORD, new_WORD_parseText, nextColon, copy_WORD', 'src/sclite/word.c'), ('add_to_arc_list', 'src/sclite/addarc1.c'), ('del_from_arc_list', 'src/sclite/delarc1.c')],
     AI + ': effects of one character, token, alternative and arc on every path; shape of the lists after each linking operation', 'complete over one step of each loop; more than 31 nested walks are refused by the program itself')
prop('S15', 'Scoring by characters replaces every word by its own characters',
     'With -c every word of more than one byte is replaced, on the reference and the hypothesis side alike, by its characters in order, each of them whole (all bytes of a multi-byte character) and exactly once: with NOASCII runs of ASCII characters stay together, with DH hyphens are left out, and in the Guarani profile g with tilde is one character. '
     'The characters take the place of the word between the same neighbours, nothing of the word stays beside them; they follow each other in time from its begin with equal shares of its duration, have its confidence, and are optionally deletable exactly if the word is, without its parentheses. Words of any length and texts with semicolons are treated alike.',
     ['inputs'], 'any word of any length, any encoding and any combination of NOASCII and DH',
     'tests split a few short words; word length, escapes and the growth of the buffer are not varied',
     ['src/sclite/align.c', 'src/sclite/text.c'],
     [('expand_words_to_chars, set_word_start, set_word_duration, set_word_conf', 'src/sclite/align.c'), ('TEXT_separate_chars, TEXT_strCcpy, TEXT_strcpy_escaped', 'src/sclite/text.c')],
     AI + ': effects of one character and one word on every path', 'complete over one step of each loop; the number of bytes of a character is S07, joining networks S14')
prop('S16', 'sclite options have their documented effect; each system gets its own reports',
     'Every documented option of sclite changes the setting it stands for and nothing else, takes exactly its arguments, and the words of -o, -C, -m and -c switch what they name; an unknown option, a missing argument, missing input, an unknown format or id type, a file that does not exist and options that exclude each other end the run with an error before anything is scored, every other combination is accepted. '
     'Each system, piped or from a file, is scored once, with the alignment its formats ask for and with all settings handed on, and gets exactly the reports asked for, made from its own scores, on the standard output or in files of its own name (-O, -n); -p pipes every system in the form that -P reads; the run fails if an alignment or a confidence report fails.',
     ['inputs'], 'any command line: any options in any order, any number of systems, piped or from files',
     'tests run some forty fixed command lines; conflicts, -P together with -h, -n and failures are not run',
     ['src/sclite/sclite.c'], [('proc_args, main', 'src/sclite/sclite.c')],
     AI + ': effects of one option and one word of a list, all combinations behind the options, one system on every path', 'complete over one option, one word, one hypothesis and one system; combinations behind the options are explored in three groups (reports and pipes, formats and alignment, weights)')
prop('S17', 'Alignments written as SGML are read back as the same alignments',
     'The SGML form of a scored system (-o sgml, -p) holds every speaker, path and word once: the title, file names, flags, labels and categories of the system, the id, labels, file, channel, sequence, times and attributes of each path, and for each word its evaluation, the reference and hypothesis text with their tags, and the times, confidences and weights the path has, in the order announced by word_aux. '
     'Reading it (sclite -P, sc_stats) puts each of them back into the field it came from, for the word on the same side, whatever values are present or missing; words may have any length and number; a line that breaks the format is refused and never read beyond its end. Words containing a double quote and times below a millisecond are outside the format.',
     ['inputs'], 'every scored system: any speakers, paths, words, and any combination of attributes of a path',
     'tests compare a few written files and read two back; combinations of attributes, tags, long words and malformed lines are not among them',
     ['src/sclite/scores.c', 'src/sclite/sgml.c'], [('dump_SCORES_sgml, load_SCORES_sgml', 'src/sclite/scores.c'), ('add_SGML_tag, get_SGML_attrib', 'src/sclite/sgml.c')],
     AI + ': the text the writer produces for every evaluation and combination of attributes is the layout on which the reader is interpreted', 'complete over the 6 evaluations, the 64 combinations of word attributes and one attribute, value and word at a time of the reader; splitting a word into text and tags while reading is not decided')
prop('S18', 'Printed alignments show every word of every utterance once',
     'The alignment reports (-o pra, prf) print every path of every speaker once - the full report by sequence number, whatever the numbers are, the short one by speaker - and leave the scores as they were. '
     'For each path the header shows its id, file, channel, labels, times and attributes and the number of words of each evaluation; every word then appears exactly once and in order in each line of some block, however long the words and narrow the lines: the REF and HYP lines show the words (in capitals when they are wrong and case does not matter) or asterisks for a missing one, the other lines the times, confidences and weights of the word on their side exactly when the path has them, and the Eval line the letter of its evaluation.',
     ['inputs'], 'every scored system and path, any line width, any combination of attributes',
     'tests compare the reports of a few files with short words; long words, long lines, rare attributes and large sequence numbers are not among them',
     ['src/sclite/path.c', 'src/sclite/scores.c'], [('PATH_n_print', 'src/sclite/path.c'), ('dump_SCORES_alignments', 'src/sclite/scores.c')],
     AI + ': what is printed for a word under every line label, for every evaluation and attribute, with an induction over words, blocks of lines, speakers and paths', 'complete over the 4 evaluations, 11 lines and attribute combinations one at a time, none and all; how much fits on a line is not decided, nor the HTML form')
prop('S19', 'Paired significance tests count each case once and decide by their counts',
     "The paired tests of sc_stats compare every two systems once and report the result and probability of that pair. McNemar's test counts each pair of utterances with the same speaker and id once, an utterance being wrong exactly when one of its words is; the sign test counts each speaker all systems have once, paired by name whatever the order of the speakers, by the sign of the difference of the two systems' own rates (correct, error or accuracy, equal within 0.005) and gives half of the equal speakers to each side. "
     'Both take twice the binomial probability of the smaller count (1 when the counts are equal), find a difference exactly when it is below 0.05, and then name the system with fewer wrong utterances, or better rates; the order of the two systems does not matter. The probability is the sum of the binomial terms where n p (1-p) is at most 5, and otherwise the normal distribution at R + 1/2, read from a table that is right at each point. The comparison matrices name the better system of each pair, or same.',
     ['inputs'], 'any number of systems, speakers, utterances and words, any counts',
     'tests compare the reports of three small test sets with a few differing cases; ties, many cases, other rates and orders of systems are not among them',
     ['src/sclite/sentmcn.c', 'src/sclite/signtest.c', 'src/sclite/statdist.c', 'src/sclite/rank.c', 'src/sclite/wilcoxon.c', 'src/sclite/mtchprs.c'],
     [('McNemar_sent, do_McNemar_by_sent, do_McNemar, compute_McNemar', 'src/sclite/sentmcn.c'), ('perform_signtest, compute_signtest_for_treatment, sign_test_analysis', 'src/sclite/signtest.c'), ('compute_acc_binomial, n_CHOOSE_r, normprob', 'src/sclite/statdist.c'), ('init_RANK_struct_from_SCORES, print_trt_comp_matrix_for_RANK_one_winner', 'src/sclite/rank.c'), ('perform_wilcoxon', 'src/sclite/wilcoxon.c'), ('do_mtch_pairs', 'src/sclite/mtchprs.c')],
     AI + ': effects of one word, utterance, speaker and pair of systems on every path; symbolic formulas compared with the textbook ones at sample points; the constants of the table against the normal distribution', 'complete over one step of each loop and every table entry; the formulas are compared at sample points, rounding is not decided; the decisions of the matched-pairs and Wilcoxon tests are N02')
na('N02', 'The matched-pairs, Wilcoxon and ANOVA tests report their tail probability',
   'The matched-pairs test, the signed-rank test and the analysis of variance of sc_stats compute their documented statistic and decide significance by its distribution.',
   ['inputs'], 'every pair of systems', 'a numerical statement',
   ['src/sclite/mtchprs.c', 'src/sclite/wilcoxon.c', 'src/sclite/anovar.c', 'src/sclite/statdist.c'], [('do_mtch_pairs_on_sys, calc_two_sample_z_test_double', 'src/sclite/mtchprs.c'), ('compute_wilcoxon_for_treatment', 'src/sclite/wilcoxon.c'), ('compute_anovar', 'src/sclite/anovar.c')],
   'accumulated floating-point sums, variances and ranks over run-time data; no sound static bound on their accuracy is in reach (the counting tests are S19)')
na('N03', 'The Perl scorers and filters compute their documented measures',
   'md-eval, hubscr, the stm/ctm filters and the rttm tools map their input to the documented output and error measures.',
   ['inputs'], 'every input file', 'dynamic text programs',
   ['src/md-eval/md-eval.pl', 'src/hubscr/hubscr.pl', 'src/tanalfil'], [('score_speaker_diarization', 'src/md-eval/md-eval.pl')],
   'untyped Perl whose meaning is in regular expressions and hash contents; only the op tree is available here, from which no sound statement about those contents follows')
na('N04', 'asclite aligns overlapping speech at least cost',
   'asclite finds a cheapest alignment of all simultaneous speakers in every segment group.',
   ['inputs'], 'every segment group', 'minimality over an n-dimensional lattice with a pruned search',
   ['src/asclite/core/levenshtein.cpp', 'src/asclite/core/graph.cpp'], [('Graph_Align_*', 'src/asclite/core/graph.cpp')],
   'the search prunes by run-time time bounds and uses a compressed matrix addressed by run-time sizes; whether the pruning keeps a cheapest path depends on those quantities')
