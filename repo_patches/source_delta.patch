From c5dbfdf2b58f10e6e72a1260ff34604709ccf9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:02 +0000
Subject: [PATCH 01/47] fix: drop every speaker without reference words from
 the Mean/S.D./Median rows

The arrays were compacted while walking upwards with indices of the
uncompacted word counts, so with two or more such speakers the wrong
entries were removed.  Walk downwards instead.
---
 src/sclite/scores.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 01e194c..6e89e05 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1382,7 +1382,7 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
     /* added by Brett to compute mean, variance, and standard dev */
     if (Zero_spkr > 0) {
       /* remove any speakers data if word_num_arr[spkr] is 0 */
-      for (spkr=0; spkr<sc->num_grp; spkr++){
+      for (spkr=sc->num_grp-1; spkr>=0; spkr--){
 	if (word_num_arr[spkr] == 0) {
 	  int s2;
 	  /* shift up the speakers data to fill this one */
-- 
2.43.0


From 74e47d132a29cb50fb5f45743aaef002dc0ae2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:53 +0000
Subject: [PATCH 02/47] fix: AUTO_LEX_find returns the entry, not its rank

The caller uses the result to index field_a, as it does with the result of
AUTO_LEX_insert, so counts in the list of not correct reference words of
'sc_stats -r prn' were credited to other words.
---
 src/sclite/alex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/alex.c b/src/sclite/alex.c
index d763550..51a07e5 100644
--- a/src/sclite/alex.c
+++ b/src/sclite/alex.c
@@ -56,7 +56,7 @@ int AUTO_LEX_find(AUTO_LEX *alex, TEXT *str){
   int success = 0;
   int ind = index_search(alex,str,&success);
   if (success)
-    return(ind);
+    return(alex->sort[ind]);
   return(-1);
 }
 
-- 
2.43.0


From 808faadf6228a9a36b21c1e17642dd0be1a24a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:56 +0000
Subject: [PATCH 03/47] fix: rover avgconf no longer fails when all confidences
 are zero

The average-confidence score divided by the summed confidences without
looking: with all-zero confidences every score became NaN, and rover
stopped with 'No best word found' even for the documented word-frequency
setting '-m avgconf -a 1.0 -c 0.0'.
---
 src/sclite/rover.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 3bd15f4..b1bf8cf 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -428,8 +428,9 @@ void print_linear(NODE *node, void *p){
 				   word_max_conf[i]));
 	    else if (mf_sel_str->method == METH_AVGCONF){
 		word_score[i] = ( mf_sel_str->alpha * ((double)word_occ[i]/(double)Narc) +
-				  ((1.0-mf_sel_str->alpha) * 
-				   word_conf_sum[i] / total_conf));
+				  ((total_conf == 0.0) ? 0.0 :
+				   ((1.0-mf_sel_str->alpha) * 
+				    word_conf_sum[i] / total_conf)));
 		if (mfdb > 5) {
 		    printf("avgconf word_score[%d] = %f\n",i,word_score[i]);
 		    printf("      %.3f * (%.3f / %.3f) + (1 - %.3f) * (%.3f / %.3f)\n",
-- 
2.43.0


From 700628072c33fea047a9c4243baa66a34f7f3fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:14 +0000
Subject: [PATCH 04/47] fix: rover selects the best word also when all scores
 are -1 or less

The running maximum started at -1, so a correspondence set whose scores
were all <= -1 (confidences missing or given as log-probabilities, with
alpha < 1) stopped rover with 'No best word found'.
---
 src/sclite/rover.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index b1bf8cf..d2b0851 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -442,7 +442,7 @@ void print_linear(NODE *node, void *p){
 		fprintf(scfp,"Error: undefined method PL2 %d\n",mf_sel_str->method);
 		exit(1);
 	    }
-	    if (word_score[i] > max_score){
+	    if (best_w < 0 || word_score[i] > max_score){
 		max_score = word_score[i];
 		best_w = i;
 		ties = 1;
-- 
2.43.0


From ac97b002534a69585be83dd1790ea6149e8cd02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:16 +0000
Subject: [PATCH 05/47] fix: rover maxconf takes the maximum also of negative
 confidences

The maximum was started at 0, so negative confidences (log-probabilities)
were all replaced by 0 and the vote fell to whichever word came first.
---
 src/sclite/rover.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index d2b0851..3634fe4 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -399,8 +399,11 @@ void print_linear(NODE *node, void *p){
 	    } else {
 #endif
                 word_conf_sum[i] += ((WORD*)(parc->arc->data))->conf;
-		word_max_conf[i] = MAX(word_max_conf[i],
-				       ((WORD*)(parc->arc->data))->conf);
+		if (word_occ[i] == 1)
+		    word_max_conf[i] = ((WORD*)(parc->arc->data))->conf;
+		else
+		    word_max_conf[i] = MAX(word_max_conf[i],
+					   ((WORD*)(parc->arc->data))->conf);
 		total_conf +=  ((WORD*)(parc->arc->data))->conf;
 #ifdef mmm
 	    }
-- 
2.43.0


From 21f99d2c26f247ca61e3df0774d715a8bcd981ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:31 +0000
Subject: [PATCH 06/47] fix: rover no longer drops a last file/channel of a
 single word

Words are numbered 1..n, so a system has words left while s <= n. With
s < n a final file or channel holding one word per system was silently
left out of the output.
---
 src/sclite/mfa.c   | 2 +-
 src/sclite/rover.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 13b3dec..5435f81 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -80,7 +80,7 @@ void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense
 	    for (in=0; in < nhyps; in++){
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
+		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
 	    }
 	}
     }
diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 3634fe4..faac7b9 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -183,7 +183,7 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
 	    for (in=0; in < nhyps; in++){
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
+		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
 	    }
 	}
     }
-- 
2.43.0


From 1eecfc4deebfcfe933ec2f4eb42afbac9682d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:32 +0000
Subject: [PATCH 07/47] fix: rover keeps words of the next channel out of the
 current one

A system that had run out of words in the current channel was given the
one-word range [s,s], which is the first word of its next channel; that
word was voted on in the wrong channel and then again in its own.
---
 src/sclite/mfa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 5435f81..a9f9637 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -277,7 +277,8 @@ int gap_at_times(WTOKE_STR1 *ctm, int end, double *mgap_beg, double *mgap_end, i
     
     /* if there is no more data in this ctm, that answer is YES */
     if (ctm->s > end) {
-	*mgap_s = ctm->s;
+	/* an empty range: word[s] belongs to the next file/channel */
+	*mgap_s = ctm->s - 1;
 	return(1);
     }
 
-- 
2.43.0


From 511c02212afc1501c5d105183cc2e8adac2c7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:46 +0000
Subject: [PATCH 08/47] fix: rover compares the channel too before combining
 conversations

Only the conversation names were compared, so a channel missing from one
system was combined with another system's next channel, and a first
system that ended early made rover read past its last word.
---
 src/sclite/mfa.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index a9f9637..f0ac5cc 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -152,12 +152,18 @@ void locate_next_file_channel(WTOKE_STR1 **ctms, int nctm, FILE **files, char **
 			     &(eofs[in]), case_sense);
 	locate_boundary(ctms[in], ctms[in]->s, TRUE,TRUE,&(conv_end[in]));
 	if (in >= 1 && ctms[in]->s <= ctms[in]->n)
-	    if (strcmp(ctms[0]->word[ctms[0]->s].conv,
-		       ctms[in]->word[ctms[in]->s].conv) != 0){
+	    if (ctms[0]->s > ctms[0]->n ||
+		strcmp(ctms[0]->word[ctms[0]->s].conv,
+		       ctms[in]->word[ctms[in]->s].conv) != 0 ||
+		strcmp(ctms[0]->word[ctms[0]->s].turn,
+		       ctms[in]->word[ctms[in]->s].turn) != 0){
+		int none = (ctms[0]->s > ctms[0]->n);
 		fprintf(scfp,"Error: Conversation mismatches in %s and %s, "
-			"%s and %s respectively",hypname[0],hypname[in],
-			ctms[0]->word[ctms[0]->s].conv,
-			ctms[in]->word[ctms[in]->s].conv);
+			"%s %s and %s %s respectively\n",hypname[0],hypname[in],
+			none ? "no" : ctms[0]->word[ctms[0]->s].conv,
+			none ? "words" : ctms[0]->word[ctms[0]->s].turn,
+			ctms[in]->word[ctms[in]->s].conv,
+			ctms[in]->word[ctms[in]->s].turn);
 		exit(1);
 	    }
     }
-- 
2.43.0


From dc37ddff6f728414b8d46a6fbb7842f705a26228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:44 +0000
Subject: [PATCH 09/47] fix: read a last transcript line that has no newline

---
 src/sclite/align.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 08c5de3..c29e3dd 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -89,6 +89,13 @@ void free_refs(TEXT ***rset, TEXT ***ref_id, int refcnt){
     free_2dimarr((*ref_id),refcnt,TEXT);
 }
 
+/* true if the buffer holds no utterance: the file ended before the next one. */
+/* (the end of file is also set by a last line without a newline)             */
+static int no_utterance(TEXT *buf){
+    return (TEXT_is_empty(buf) || TEXT_is_comment(buf) ||
+	    TEXT_is_comment_info(buf));
+}
+
 void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT ***refid, int *refcnt, int case_sense){
     TEXT *in_buf, *id_buf;
     int in_buf_len=LOAD_BUFF_LEN, id_buf_len=LOAD_BUFF_LEN;
@@ -116,7 +123,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
             if (TEXT_ensure_fgets(&in_buf,&in_buf_len,fp) == NULL)
                *in_buf = NULL_TEXT;
 	}
-	if (!feof(fp)){
+	if (!no_utterance(in_buf)){
 	    if (!case_sense)
 		TEXT_str_case_change_with_mem_expand(&in_buf, &in_buf_len, 1);
 	    remove_id(in_buf,&id_buf,&id_buf_len);
@@ -157,7 +164,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
             if (TEXT_ensure_fgets(&in_buf,&in_buf_len,fp) == NULL)
                *in_buf = '\0';
 	}
-        if (feof(fp))
+        if (no_utterance(in_buf))
             break;
 
 	if (!case_sense)
@@ -555,7 +562,7 @@ SCORES *align_trans_mode_dp(char *ref_file, char *hyp_file, char *set_title, int
                                  TEXT_is_empty(hyp_buff)))
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
-        if (feof(fp_hyp))
+        if (no_utterance(hyp_buff))
             break;
 
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
@@ -826,7 +833,7 @@ void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, cha
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
 
-        if (feof(fp_hyp))
+        if (no_utterance(hyp_buff))
             break;
 
 	(*num_hyp) ++;
@@ -1006,7 +1013,7 @@ SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, i
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
 
-        if (feof(fp_hyp))  break;
+        if (no_utterance(hyp_buff))  break;
 	if (!case_sense)    TEXT_str_case_change_with_mem_expand(&hyp_buff, &hyp_buff_len, 1);
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
 	extract_speaker(hyp_id,spkr_id,idt);
-- 
2.43.0


From caebb81fda3cbdf4962b92aa94cf89411603a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:21 +0000
Subject: [PATCH 10/47] fix: an STM file may end in a comment or segment
 without a newline

---
 src/sclite/align.c | 2 +-
 src/sclite/stm.c   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index c29e3dd..df6d47c 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1397,7 +1397,7 @@ SCORES *align_text_to_stm(char *ref_file, char *hyp_file, char *set_title, int k
     while (!feof(fp_ref)){
 	/* read the next ref line */
 	read_stm_line(&ref_buf,&ref_buf_len,fp_ref);
-	if (feof(fp_ref)) break;
+	if (*ref_buf == NULL_TEXT) break;
 
 	/* parse the reference transcript */
 	parse_stm_line(&ref_seg, &ref_buf, &ref_buf_len, case_sense, 0);
diff --git a/src/sclite/stm.c b/src/sclite/stm.c
index c96de43..2c07f12 100644
--- a/src/sclite/stm.c
+++ b/src/sclite/stm.c
@@ -40,6 +40,10 @@ void read_stm_line(TEXT **buf, int *len, FILE *fp){
 	if (TEXT_ensure_fgets(buf, len, fp) == NULL)
 	    **buf = '\0';
     }
+    /* a comment or blank last line without a newline is not a segment */
+    if (TEXT_is_comment(*buf) || TEXT_is_comment_info(*buf) ||
+	TEXT_is_empty(*buf))
+	**buf = '\0';
 }
 
 
@@ -232,7 +236,7 @@ void convert_stm_to_word_list(char *file, char *words, int case_sense, int *num_
     while (!feof(fp)){
 	/* read the next ref line */
 	read_stm_line(&buf,&buf_len,fp);
-	if (feof(fp)) break;
+	if (*buf == NULL_TEXT) break;
 
 	/* parse the reference transcript */
 	parse_stm_line(&seg,&buf,&buf_len,case_sense,0);
-- 
2.43.0


From 4d8290eb83f806163cd63e66a7bc70130a9fea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 11/47] fix: refuse a second reference text that only begins
 like the first

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index df6d47c..7a86bc3 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -176,7 +176,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
 				    bsearch_TEXT_strcmp)) != NULL){
 	    rind = ind - idset;
 	    if (refset[rind] != (TEXT *)0){
-		if (TEXT_strBcmp(in_buf,refset[rind],TEXT_strlen(in_buf))!= 0){
+		if (TEXT_strcmp(in_buf,refset[rind]) != 0){
 		    fprintf(stderr,"Error: double reference text for id '%s'\n",
 			    id_buf);
 		    failure=1;
-- 
2.43.0


From eead0f950d16782ea0101d36624fcca4e46ff160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 12/47] fix: list every id that has no reference text

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 7a86bc3..01df423 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -192,7 +192,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
     if (num_ref != num_ids){
 	failure=1;
 	fprintf(stderr,"Error: Not enough Reference files loaded\nMissing:\n");
-	for (i=0; i<num_ref; i++)
+	for (i=0; i<num_ids; i++)
 	    if (refset[i] == (TEXT *)0)
 	      fprintf(stderr,"    %s\n",idset[i]);
     }
-- 
2.43.0


From 7faead820c1fb78654212d02e9d2b85f1f0bb63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 13/47] fix: an id without a speaker must not be scored under
 the previous one

---
 src/sclite/align.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 01df423..a1b4ef8 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -568,7 +568,8 @@ SCORES *align_trans_mode_dp(char *ref_file, char *hyp_file, char *set_title, int
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
 	if (!case_sense)  TEXT_str_case_change_with_mem_expand(&hyp_id, &hyp_id_len, 1);
 
-	extract_speaker(hyp_id,spkr_id,idt);
+	if (extract_speaker(hyp_id,spkr_id,idt) != 0)
+	    exit(1);
 	spk = SCORES_get_grp(scor,(char *)spkr_id);
 	
 	if (feedback >= 1){
@@ -1016,7 +1017,8 @@ SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, i
         if (no_utterance(hyp_buff))  break;
 	if (!case_sense)    TEXT_str_case_change_with_mem_expand(&hyp_buff, &hyp_buff_len, 1);
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
-	extract_speaker(hyp_id,spkr_id,idt);
+	if (extract_speaker(hyp_id,spkr_id,idt) != 0)
+	    exit(1);
 	spk = SCORES_get_grp(scor,(char *)spkr_id);
 
 	if ((ind = (TEXT **)bsearch(hyp_id,refid,refcnt,sizeof(TEXT *),
-- 
2.43.0


From e1b2055e5f4b54f5a04e5c528decab279f60b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 14/47] fix: refuse an utterance id whose parentheses are in
 the wrong order

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index a1b4ef8..3bf97b7 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -30,7 +30,7 @@ void remove_id(TEXT *utt, TEXT **id, int *id_len){
     if (R_paren == NULL && L_paren == NULL)	
 	return;
 
-    if (R_paren == NULL || L_paren == NULL){
+    if (R_paren == NULL || L_paren == NULL || R_paren < L_paren){
 	fprintf(stderr,"Error: Unparsable utterance id %s\n",utt);
 	exit(1);
     }
-- 
2.43.0


From f21a6279beaca7da082188e73bfee7002e29bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:55 +0000
Subject: [PATCH 15/47] fix: accept the documented utterance id type atis

---
 src/sclite/sclite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 076a22b..b4bac34 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -712,6 +712,7 @@ void proc_args(int argc, char **argv, char *prog, char **rname, char **rfmt, cha
 	if (strcmp(id,"swb") == 0)         *id_type=SWB;
 	else if (strcmp(id,"rm") == 0)     *id_type=RM;
 	else if (strcmp(id,"wsj") == 0)    *id_type=WSJ;
+	else if (strcmp(id,"atis") == 0)   *id_type=ATIS;
 	else if (strcmp(id,"spu_id") == 0) *id_type=SPUID;
         else if (strcmp(id,"sp") == 0)     *id_type=SP;
 	else
-- 
2.43.0


From 75d4db0f5d5bfe5ea03dcafce8b9132bf3934b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:13 +0000
Subject: [PATCH 16/47] fix: algo2 ignores case unless a case sensitive
 alignment was asked for

---
 src/sclite/align.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 3bf97b7..e37026d 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -243,8 +243,8 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     }
 
     {
-        TEXT *refCC = (case_sense ? TEXT_strdup(TEXT_str_to_master(ref, 1)) : ref);
-        if ((refnet = Network_create_from_TEXT(ref, "Reference Net",
+        TEXT *refCC = (! case_sense ? TEXT_strdup(TEXT_str_to_master(ref, 1)) : ref);
+        if ((refnet = Network_create_from_TEXT(refCC, "Reference Net",
 					   print_WORD,
 					   equal_WORD2,
 					   release_WORD, null_alt_WORD,
@@ -255,14 +255,14 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
             fprintf(stderr,"Network_create_from_TEXT failed\n");
 	    exit(1);
         }
-        if (case_sense){
+        if (! case_sense){
             free_singarr(refCC, TEXT);
         }
     }
     
     if (hyp != (TEXT *)0){
-	TEXT *hypCC = (case_sense ? TEXT_strdup(TEXT_str_to_master(hyp, 1)) : hyp);
-	if ((hypnet = Network_create_from_TEXT(hyp,"Hypothesis Net",
+	TEXT *hypCC = (! case_sense ? TEXT_strdup(TEXT_str_to_master(hyp, 1)) : hyp);
+	if ((hypnet = Network_create_from_TEXT(hypCC,"Hypothesis Net",
 					       print_WORD,
 					       equal_WORD2,
 					       release_WORD, null_alt_WORD,
@@ -273,7 +273,7 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     fprintf(stderr,"Network_create_from_TEXT failed\n");
 	    exit(1);
 	}
-        if (case_sense){
+        if (! case_sense){
            free_singarr(hypCC, TEXT);
         }
     } else 
-- 
2.43.0


From 02a257016d67b9e5219993af4ab8b3ae9328eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:13 +0000
Subject: [PATCH 17/47] fix: a lexicon that cannot be loaded is a failure

---
 src/sclite/align.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index e37026d..457bb9a 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -234,7 +234,7 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
 	int i, s;
 	if ((tl = load_TEXT_LIST(lex_fname,0)) == (TEXT_LIST *)0) {
 	    fprintf(scfp,"Error: Can't load lexicon file '%s'\n",lex_fname);
-	    exit(0);
+	    exit(1);
 	}
 	/* compute the largest word, (in characters) in the TEXT_LIST */
 	for (i=0; i<tl->num; i++)
@@ -329,7 +329,7 @@ PATH *infer_word_seg_algo1(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
 	int i, s;
 	if ((tl = load_TEXT_LIST(lex_fname,0)) == (TEXT_LIST *)0) {
 	    fprintf(scfp,"Error: Can't load lexicon file '%s'\n",lex_fname);
-	    exit(0);
+	    exit(1);
 	}
 	/* compute the largest word, (in characters) in the TEXT_LIST */
 	for (i=0; i<tl->num; i++)
-- 
2.43.0


From cbde620a1fc56171e1dcd316bb7a8ac9edda7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:08 +0000
Subject: [PATCH 18/47] fix: an STM segment without its first five fields is an
 error, not a crash

---
 src/sclite/stm.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sclite/stm.c b/src/sclite/stm.c
index 2c07f12..c300832 100644
--- a/src/sclite/stm.c
+++ b/src/sclite/stm.c
@@ -46,6 +46,14 @@ void read_stm_line(TEXT **buf, int *len, FILE *fp){
 	**buf = '\0';
 }
 
+/* a segment has no meaning without its first five fields */
+static TEXT *need_stm_field(TEXT *field){
+    if (field == (TEXT *)0){
+	fprintf(stderr,"Error: an STM segment lacks its file, channel, speaker, begin or end time\n");
+	exit(1);
+    }
+    return(field);
+}
 
 void parse_stm_line(STM_SEG *seg, TEXT **buf_ptr, int *buf_len, int case_sense, int dbg){
     TEXT *rp, *buf;
@@ -62,11 +70,11 @@ void parse_stm_line(STM_SEG *seg, TEXT **buf_ptr, int *buf_len, int case_sense,
     len = TEXT_strlen(buf);
 
     /* parse stm string */
-    rp = TEXT_strtok(buf,(TEXT *)" \t\n");     	seg->file = TEXT_strdup(rp);
-    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->chan = TEXT_strdup(rp);
-    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->spkr = TEXT_strdup(rp);
-    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->t1   = TEXT_atof(rp);
-    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->t2   = TEXT_atof(rp);
+    rp = TEXT_strtok(buf,(TEXT *)" \t\n");     	seg->file = TEXT_strdup(need_stm_field(rp));
+    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->chan = TEXT_strdup(need_stm_field(rp));
+    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->spkr = TEXT_strdup(need_stm_field(rp));
+    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->t1   = TEXT_atof(need_stm_field(rp));
+    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->t2   = TEXT_atof(need_stm_field(rp));
     seg->flag1 = 0;
     seg->labels = (TEXT *)0;
     if (rp != (TEXT *)0){
-- 
2.43.0


From d1b78037c35194163dba2f37f5b4b6a0842f264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:08 +0000
Subject: [PATCH 19/47] fix: a ctm line with missing fields is reported instead
 of crashing

The fields after the last one given were copied from a null pointer, and the
channel of the previous line was kept, so the checks for empty fields could
not work.
---
 src/sclite/fillmrks.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sclite/fillmrks.c b/src/sclite/fillmrks.c
index f006d64..9ecfb32 100644
--- a/src/sclite/fillmrks.c
+++ b/src/sclite/fillmrks.c
@@ -119,7 +119,7 @@ db_enter_msg(proc,0); /* debug only */
 	   if (!case_sense)
 	       TEXT_str_case_change_with_mem_expand(&in_buf, &in_buf_len, 1);
 	   n += 1;
-	   *s2 = *s3 = *xconv = *xsp = *xconf = *xcorr = '\0';
+	   *side = *s2 = *s3 = *xconv = *xsp = *xconf = *xcorr = '\0';
 
 	   /* printf("WTOKE: %s  %d  %d\n",
 	      in_buf,TEXT_strlen(in_buf),strlen(in_buf)); */
@@ -128,18 +128,19 @@ db_enter_msg(proc,0); /* debug only */
 
 	   if (*in_buf != '\0'){
 	       /* parse stm string */
+	     /* missing fields stay empty and are reported below */
 	     rp = TEXT_strtok((TEXT *)in_buf + TEXT_strspn(in_buf,
 							   (TEXT*)" \t"),
 			      (TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)xconv,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)xconv,rp,LINE_LENGTH);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)side,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)side,rp,LINE_LENGTH);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)s2,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)s2,rp,LINE_LENGTH);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n"); 
-	       TEXT_strBcpy((TEXT *)s3,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)s3,rp,LINE_LENGTH);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)xsp,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)xsp,rp,LINE_LENGTH);
 	       if ((rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n")) != NULL){
 		 TEXT_strBcpy((TEXT *)xconf,rp,LINE_LENGTH);
 		 if ((rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n")) != NULL){
-- 
2.43.0


From c6cd8a6cc35fdfd14f69c8eb083889035363313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:08 +0000
Subject: [PATCH 20/47] fix: leave room for the end of the longest ctm field

---
 src/sclite/fillmrks.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sclite/fillmrks.c b/src/sclite/fillmrks.c
index 9ecfb32..f3df651 100644
--- a/src/sclite/fillmrks.c
+++ b/src/sclite/fillmrks.c
@@ -132,19 +132,19 @@ db_enter_msg(proc,0); /* debug only */
 	     rp = TEXT_strtok((TEXT *)in_buf + TEXT_strspn(in_buf,
 							   (TEXT*)" \t"),
 			      (TEXT *)" \t\n");
-	       if (rp != NULL) TEXT_strBcpy((TEXT *)xconv,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)xconv,rp,LINE_LENGTH-1);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       if (rp != NULL) TEXT_strBcpy((TEXT *)side,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)side,rp,LINE_LENGTH-1);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       if (rp != NULL) TEXT_strBcpy((TEXT *)s2,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)s2,rp,LINE_LENGTH-1);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n"); 
-	       if (rp != NULL) TEXT_strBcpy((TEXT *)s3,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)s3,rp,LINE_LENGTH-1);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       if (rp != NULL) TEXT_strBcpy((TEXT *)xsp,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)xsp,rp,LINE_LENGTH-1);
 	       if ((rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n")) != NULL){
-		 TEXT_strBcpy((TEXT *)xconf,rp,LINE_LENGTH);
+		 TEXT_strBcpy((TEXT *)xconf,rp,LINE_LENGTH-1);
 		 if ((rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n")) != NULL){
-		   TEXT_strBcpy((TEXT *)xcorr,rp,LINE_LENGTH);
+		   TEXT_strBcpy((TEXT *)xcorr,rp,LINE_LENGTH-1);
 		 }
 	       }
 	   }	    
-- 
2.43.0


From 94e8f5db002ac7f3314caaf4adb72a87a4cb4a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:50 +0000
Subject: [PATCH 21/47] fix: rover ends when no input file has any words

---
 src/sclite/mfa.c    | 1 +
 src/sclite/net_dp.c | 2 +-
 src/sclite/rover.c  | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index f0ac5cc..b119cf2 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -44,6 +44,7 @@ void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense
     while (!done){
         locate_next_file_channel(ctms, nhyps, files, hypname, eofs, conv_end,
 				 case_sense, feedback);
+	done = 1;	/* unless a section follows, there are no words left */
 	
 	file = ctms[0]->word[ctms[0]->s].conv;
 	chan = ctms[0]->word[ctms[0]->s].turn;
diff --git a/src/sclite/net_dp.c b/src/sclite/net_dp.c
index 09cf40f..441f26d 100644
--- a/src/sclite/net_dp.c
+++ b/src/sclite/net_dp.c
@@ -502,7 +502,7 @@ int Network_dpalign(NETWORK *net_a,NETWORK *net_b,float wwd(void *, void *, int
 
     if (net_a == (NETWORK *)0 && net_b == (NETWORK *)0){
         if (db >= 1) printf("destroying %s's data\n",proc);
-        destroy_NET_ALIGN(&net_ali);
+        if (net_ali != NET_ALIGN_NULL) destroy_NET_ALIGN(&net_ali);
 	return (1);
     }
 
diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index faac7b9..0bae04d 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -149,6 +149,7 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
     while (!done){
         locate_next_file_channel(ctms, nhyps, files, hypname, eofs, conv_end,
 				 case_sense, feedback);
+	done = 1;	/* unless a section follows, there are no words left */
 
 	mf_sel_str.file = ctms[0]->word[ctms[0]->s].conv;	
 	mf_sel_str.chan = ctms[0]->word[ctms[0]->s].turn;	/* channel */
-- 
2.43.0


From d1576f9bcdc69e23e0bd4c369136508c272a960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:37 +0000
Subject: [PATCH 22/47] fix: keep the first word of the alternative that
 follows an empty one in a ctm alternation

---
 src/sclite/net_adt.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index 9cb76ac..5c120e4 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -674,7 +674,7 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
     for (i=start; (i<=wt->n)&&(i<=end); i++){
 	if ((!wt->word[i].ignore) && wt->word[i].alternate) {
 	    NETWORK *alt_net, *alt_net_out=NULL_NETWORK;
-	    int first_alt=1, acnt;
+	    int first_alt=1, more_alt, acnt;
 
 	    /* skip the ALT_BEGIN */
 	    for (; (i<=wt->n) && (i<=end) &&
@@ -726,7 +726,6 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
 			fprintf(stderr,"failed in %s\n",proc);
 			return(NULL_NETWORK);
 		    }
-		    i++;
 		}
 		if (first_alt)
 		    alt_net_out = alt_net;
@@ -736,13 +735,13 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
 					  alt_net_out->stop_node,alt_net);
 		}
 	        first_alt = 0;
-		if (TEXT_strcasecmp((TEXT*)"<ALT>",wt->word[i].sp) == 0 &&
-		    TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i+1].sp) == 0)
-		    ;
-		else if (TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i].sp)!=0)
+		/* skip the <ALT>, the next alternative may be empty */
+		more_alt = ((i<=wt->n) && (i<=end) &&
+			    (TEXT_strcasecmp((TEXT*)"<ALT_END>",
+					     wt->word[i].sp) != 0));
+		if (more_alt)
 		    i++;
-	    } while ((i<=wt->n) && (i<=end) &&
-		     (TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i].sp)!= 0));
+	    } while (more_alt);
 
 	    if (alt_net_out == (NETWORK *)0){
 		fprintf(stderr,"Error: %s failed to produce a network for "
-- 
2.43.0


From 60ef85e8801f5cb2c478611d375e4c752c94d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:37 +0000
Subject: [PATCH 23/47] fix: report an unclosed alternation or an over-long
 word instead of dropping the rest of the text

---
 src/sclite/net_adt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index 5c120e4..5f8f791 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -494,6 +494,10 @@ NETWORK *Network_create_from_TEXT(TEXT *text, char *name, void (*aprn)(void *),
 			proc);
 		return(NULL_NETWORK);
 	    }
+	} else if (! end_of_TEXT(*token)) {
+	    fprintf(stderr,"Error: word too long or alternation not closed in "
+		    "'%s'\n",text);
+	    return(NULL_NETWORK);
 	}
     }
     Network_traverse(net,NULL,0,expand_alternates,0,0);
-- 
2.43.0


From e0f2e31a222c51e5a5060cb5dde34dc798fd02ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:37 +0000
Subject: [PATCH 24/47] fix: report alternations without a word instead of
 crashing

---
 src/sclite/net_adt.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index 5f8f791..f391e3d 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -989,6 +989,11 @@ static void expand_alternates(ARC *arc, void *ptr){
 						  arc->net->arc_func.copy,
 						  arc->net->arc_func.make_empty,
 						  arc->net->arc_func.use_count);
+		if (subnet == NULL_NETWORK || subnet->stop_node == (NODE *)0){
+		    fprintf(stderr,"Error: alternation '%s' is malformed\n",
+			    tw->value);
+		    exit(1);
+		}
 		alt ++;
 		if (first)
 		    subnet2 = subnet;
@@ -1016,6 +1021,11 @@ static void expand_alternates(ARC *arc, void *ptr){
 	}
 	TEXT_free(ctext);
 
+	if (subnet2 == NULL_NETWORK){
+	    fprintf(stderr,"Error: alternation '%s' has no alternatives\n",
+		    tw->value);
+	    exit(1);
+	}
 	if (db >= 10){
 	    printf("Network After Merge\n");
 	    Network_traverse(subnet2,print_node,0,print_arc,0,0);
-- 
2.43.0


From e707ff36d1cc2538fbb36447e8f6b3127fbd9aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:37 +0000
Subject: [PATCH 25/47] fix: leave room for the terminator of a token in
 find_next_TEXT_token and find_next_TEXT_alternation

---
 src/sclite/text.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sclite/text.c b/src/sclite/text.c
index af34db0..bfb5bc5 100644
--- a/src/sclite/text.c
+++ b/src/sclite/text.c
@@ -1290,7 +1290,7 @@ int find_next_TEXT_token(TEXT **ctext, TEXT *token, int len){
 	    if (**ctext == ALT_END)
 		alt_cnt --;
             for (i=0; i<nchar; i++){
-   	        if (++c > len) {
+   	        if (++c >= len) {
 		    fprintf(stderr,"proc: %s increase token size > %d\n",proc,len);
 		    return(0);
  	        }
@@ -1308,7 +1308,7 @@ int find_next_TEXT_token(TEXT **ctext, TEXT *token, int len){
             if (db>=20)
 		printf("Char /%s/ %x nchar=%d\n",*ctext,**ctext,nchar);
             for (i=0; i<nchar; i++){
-   	        if (++c > len) {
+   	        if (++c >= len) {
 		    fprintf(stderr,"proc: %s increase token size > %d\n",proc,len);
 		    return(0);
  	        }
@@ -1347,7 +1347,7 @@ int find_next_TEXT_alternation(TEXT **ctext, TEXT *token, int len){
         nchar = TEXT_nbytes_of_char(*ctext);
         if (nchar > 1){
             for (i=0; i<nchar; i++){
-   	        if (++c > len) {
+   	        if (++c >= len) {
 		    fprintf(stderr,"proc: %s increase token size > %d\n",proc,len);
 		    return(0);
  	        }
@@ -1356,7 +1356,7 @@ int find_next_TEXT_alternation(TEXT **ctext, TEXT *token, int len){
         } else {
             if (**ctext == ALT_BEGIN) alt_cnt++;
 	    if (**ctext == ALT_END) alt_cnt--;
-	    if (++c > len) {
+	    if (++c >= len) {
 		fprintf(stderr,"proc: %s increase token size > %d\n",
 			proc,len);
 		return(0);
-- 
2.43.0


From c9c5dcc6a0be5b8408c7017e14df340dcf8463d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:10 +0000
Subject: [PATCH 26/47] fix: node names of nested alternations no longer
 overflow a fixed buffer

---
 src/sclite/net_adt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index f391e3d..9905ec0 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -947,11 +947,12 @@ int NETWORK_insert_arc_between_node(NETWORK *net, NODE *from_node, NODE *to_node
 }
 
 static void change_node_name(NODE *node, void *ptr){
-    char *t, buff[40];
+    char *t, *buff;
     if (node != NULL){
 	t = node->name;
+	alloc_singarr(buff,strlen((char *)ptr) + strlen(t) + 1,char);
 	sprintf(buff,"%s%s",(char *)ptr,t);
-	node->name = (char *)TEXT_strdup((TEXT *)buff);
+	node->name = buff;
 	free(t);
     }    
 }
-- 
2.43.0


From 12aebcd21c3188cf54d8ec3d6845307b9297480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:04 +0000
Subject: [PATCH 27/47] fix: do not read before a word that begins with the tag
 separator

---
 src/sclite/word.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/word.c b/src/sclite/word.c
index f4aadf8..74bc104 100644
--- a/src/sclite/word.c
+++ b/src/sclite/word.c
@@ -245,7 +245,7 @@ TEXT *nextColon(TEXT *t){
     if (nextColon == (TEXT *)NULL){
        endFound = 1;
        extentPos = TEXT_strlen(t);
-    } else if (*(nextColon - 1) == WORD_SGML_ESCAPE) {
+    } else if (nextColon > t && *(nextColon - 1) == WORD_SGML_ESCAPE) {
        extentPos = nextColon - t + 1;
     } else {
        endFound = 1;
-- 
2.43.0


From 0888e7d63a2310b0a054a8bf36fe7ccba4e97f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:27 +0000
Subject: [PATCH 28/47] fix: pipe the alignments (-p) in the format that -P and
 sc_stats read

---
 src/sclite/sclite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index b4bac34..a25dbc3 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -372,7 +372,7 @@ int main(int argc, char **argv){
 
     if (pipeout)
 	for (nsc=0; nsc < num_hyps + num_piped; nsc++)
-	    dump_SCORES_sgml(scor[nsc],stdout,(TEXT *)"\n",(TEXT *)"\n");
+	    dump_SCORES_sgml(scor[nsc],stdout,(TEXT *)":",(TEXT *)",");
 
     /* clean up the score structures */
     for (nsc=0; nsc < num_hyps + num_piped; nsc++)
-- 
2.43.0


From d70b87e1b90833cf88ba6d5a4ac26ed625966ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:27 +0000
Subject: [PATCH 29/47] fix: keep the scores of files apart from piped scores
 (-P together with -h)

---
 src/sclite/sclite.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index a25dbc3..77cd1ce 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -202,19 +202,19 @@ int main(int argc, char **argv){
 	    }
 	    if (strcmp(reffmt,"trn") == 0 && strcmp(hypfmt[nh],"trn") == 0)
 		if (!use_diff)
-		    scor[nh]=align_trans_mode_dp(refname,hypname[nh],title[nh],
+		    scor[nsc]=align_trans_mode_dp(refname,hypname[nh],title[nh],
 						 1,case_sense,feedback,
 						 char_align,id_type,
 						 infered_wordseg, lexicon,
 						 frag_correct, opt_del, 
 						 inf_flags, wwl, lm_file);
 		else
-		    scor[nh]=align_trans_mode_diff(refname,hypname[nh],
+		    scor[nsc]=align_trans_mode_diff(refname,hypname[nh],
 						   title[nh],1,case_sense,
 						   feedback,id_type);
 	    else if (strcmp(reffmt,"stm")== 0 && strcmp(hypfmt[nh],"ctm") == 0)
 		if (!use_diff)
-		    scor[nh]=align_ctm_to_stm_dp(refname,hypname[nh],title[nh],
+		    scor[nsc]=align_ctm_to_stm_dp(refname,hypname[nh],title[nh],
 						 1, case_sense,feedback,
 						 char_align,id_type,
 						 infered_wordseg, lexicon,
@@ -225,7 +225,7 @@ int main(int argc, char **argv){
 						 left_to_right, wwl, lm_file);
 		else {
 		  if (left_to_right)
-		    scor[nh]=align_ctm_to_stm_diff(refname, hypname[nh],
+		    scor[nsc]=align_ctm_to_stm_diff(refname, hypname[nh],
 						   title[nh],1,case_sense,
 						   feedback,id_type);
 		  else {
@@ -235,14 +235,14 @@ int main(int argc, char **argv){
 		  }
 		}
 	    else if (strcmp(reffmt,"ctm")== 0 && strcmp(hypfmt[nh],"ctm") == 0)
-	      scor[nh]=align_ctm_to_ctm(hypname[nh], refname, title[nh],
+	      scor[nsc]=align_ctm_to_ctm(hypname[nh], refname, title[nh],
 					feedback, frag_correct, opt_del,
 					case_sense, time_align, left_to_right, wwl,
 					lm_file);
 	    else if (strcmp(reffmt,"stm")== 0 && strcmp(hypfmt[nh],"txt") ==0){
 #if DIFF_ENABLED
 	      if (left_to_right)
-		scor[nh] =align_text_to_stm(refname, hypname[nh],title[nh],
+		scor[nsc] =align_text_to_stm(refname, hypname[nh],title[nh],
 					    1,case_sense,feedback,id_type);
 	      else {
 		fprintf(scfp,"Error: can't perform diff alignments on "
@@ -258,7 +258,7 @@ int main(int argc, char **argv){
 		exit(1);
 	    }
 	    
-	    if (scor[nh] == (SCORES *)0){
+	    if (scor[nsc] == (SCORES *)0){
 		fprintf(stderr,"%s: Alignment failed.  Exiting.\n",prog);
 		exit(1);
 	    }
-- 
2.43.0


From 7e06ace67b82960521a431a8213343a556b66521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:27 +0000
Subject: [PATCH 30/47] fix: refuse more hypothesis files and piped systems
 than there is room for

---
 src/sclite/sclite.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 77cd1ce..5281cf7 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -156,6 +156,10 @@ int main(int argc, char **argv){
 	    exit(1);
 	}
 	if (feedback >= 1) printf("%d systems loaded.\n",num_piped);	
+	if (num_piped + num_hyps > MAX_HYPS){
+	    fprintf(stderr,"Error: More than %d systems to score\n",MAX_HYPS);
+	    exit(1);
+	}
     } else 
 	num_piped = 0;
 
@@ -433,6 +437,8 @@ void proc_args(int argc, char **argv, char *prog, char **rname, char **rfmt, cha
 	} else if (strcmp(argv[opt],"-h") == 0){
 	    if (argc < opt + 2) do_exit("Not enough Hyp arguments",prog,1);
 	    if (*(argv[opt+1]) == '-') do_exit("Req'd Hyp File name",prog,1);
+	    if (*nhyps >= MAX_HYPS)
+		do_exit(rsprintf("More than %d Hyp Files",MAX_HYPS),prog,1);
 	    hname[*nhyps] = argv[++opt];
 	    if (argc >= opt + 2 && *(argv[opt+1]) != '-') 
 		hfmt[*nhyps]  = argv[++opt];
-- 
2.43.0


From 864e5972ff916f2fcf911c225e2fb8f858b524f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:27 +0000
Subject: [PATCH 31/47] fix: -c and -m do not read the format of a missing
 reference, and -c looks at every hypothesis

---
 src/sclite/sclite.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 5281cf7..b805c92 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -727,7 +727,7 @@ void proc_args(int argc, char **argv, char *prog, char **rname, char **rfmt, cha
     }
 
     if (*stm2ctm_reduce){
-	if (strcmp(*rfmt,"stm") != 0)
+	if (*rfmt == (char *)0 || strcmp(*rfmt,"stm") != 0)
 	    do_exit("-m flag requires stm format reference file",prog,1);
 	for (i=0; i<*nhyps; i++)
 	    if (strcmp(hfmt[i],"ctm") != 0)
@@ -736,9 +736,13 @@ void proc_args(int argc, char **argv, char *prog, char **rname, char **rfmt, cha
 	    do_exit("-m flag can not be used with -d flag",prog,1);
     }
 
-    if (*char_align && (*use_diff ||
-		       (strcmp(*rfmt,"stm") == 0 && strcmp(*hfmt,"txt")==0)))
-	do_exit("Unable to do character alignments using diff\n",prog,1);
+    if (*char_align){
+	if (*use_diff)
+	    do_exit("Unable to do character alignments using diff\n",prog,1);
+	for (i=0; i<*nhyps; i++)
+	    if (strcmp(*rfmt,"stm") == 0 && strcmp(hfmt[i],"txt") == 0)
+		do_exit("Unable to do character alignments using diff\n",prog,1);
+    }
     
     if (*wwl_file != (char *)0 && *lm_file != (char *)0)
       do_exit("Flags '-L' and '-w' are mutually exclusive\n",prog,1);
-- 
2.43.0


From 3f1e4cbdfd88866ca4d7dd210ab0cb50f26b24af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:27 +0000
Subject: [PATCH 32/47] fix: sclite fails when a report it was asked for could
 not be made

---
 src/sclite/sclite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index b805c92..4bc4c7b 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -389,7 +389,7 @@ int main(int argc, char **argv){
 	else
   	    printf("\nUnsuccessful Completion\n");
     }
-    return(0);
+    return(errors == 0 ? 0 : 1);
 }
 
 void proc_args(int argc, char **argv, char *prog, char **rname, char **rfmt, char **hname, char **hfmt, int *nhyps, enum id_types *id_type, int *case_sense, int *outputs, char **title, int *feedback, int *linewidth, int *use_diff, char **out_dir, char **out_name, int *char_align, int *pipeout, int *pipein, int *infered_wordseg, char **lexicon, int *frag_correct, int *opt_del, int *inf_flags, int *stm2ctm_reduce, int *time_align, int *conf_outputs, int *left_to_right, char **wwl_file, char **lm_file){
-- 
2.43.0


From b79e11f8fb984ed0fd6240aacf0f74038370b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:27 +0000
Subject: [PATCH 33/47] fix: refuse -F and -D together with -d, which does not
 implement them

---
 src/sclite/sclite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 4bc4c7b..0a80b78 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -744,6 +744,9 @@ void proc_args(int argc, char **argv, char *prog, char **rname, char **rfmt, cha
 		do_exit("Unable to do character alignments using diff\n",prog,1);
     }
     
+    if (*use_diff && (*frag_correct || *opt_del))
+	do_exit("Flags '-F' and '-D' can not be used with -d flag\n",prog,1);
+
     if (*wwl_file != (char *)0 && *lm_file != (char *)0)
       do_exit("Flags '-L' and '-w' are mutually exclusive\n",prog,1);
 
-- 
2.43.0


From 5e28743190ed85a6689fface81cdd01f045944d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:27 +0000
Subject: [PATCH 34/47] fix: rsprintf no longer writes beyond its buffer before
 it notices

---
 src/sclite/rsprintf.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sclite/rsprintf.c b/src/sclite/rsprintf.c
index b13bca9..6402c03 100644
--- a/src/sclite/rsprintf.c
+++ b/src/sclite/rsprintf.c
@@ -27,8 +27,7 @@ va_dcl
     format = va_arg(args,char *);
 #endif
     /*    printf("rsprintf:  format: %s\n",format); */
-    vsprintf(static_message_buffer,format,args);
-    if (strlen(static_message_buffer) > 10000){
+    if (vsnprintf(static_message_buffer,sizeof(static_message_buffer),format,args) >= (int)sizeof(static_message_buffer)){
       fprintf(stderr,"Error: rsprintf's internal buffer is too small.  increase the size\n");
       exit (1);
     }
-- 
2.43.0


From 41cc0334904b8c0301194da6a2aeb40c6a10dd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:27 +0000
Subject: [PATCH 35/47] fix: make room for output names of any length

---
 src/sclite/sclite.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 0a80b78..22e3721 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -183,7 +183,7 @@ int main(int argc, char **argv){
 	    /* Set up the output root name */
 	    if ((hroot = strrchr(hypname[nh],'/')) != NULL){
 	      if (hroot-hypname[nh] + 1 > hdirLen){
-		expand_singarr_to_size(hdir,(hroot-hypname[nh]),hdirLen,hroot-hypname[nh]+1,TEXT);
+		expand_singarr_to_size(hdir,0,hdirLen,hroot-hypname[nh]+1,TEXT);
 	      }
 	      TEXT_strBcpy((TEXT *)hdir,(TEXT *)hypname[nh],hroot-hypname[nh]);
 	      hroot++;
@@ -200,7 +200,7 @@ int main(int argc, char **argv){
 	      else
 	        name = rsprintf("%s",(out_name != (char *)0) ? out_name : hroot);
 	      if (outrootLen < TEXT_strlen((TEXT *)name)+1){
-		expand_singarr(outroot,TEXT_strlen((TEXT *)name),outrootLen,1.5,TEXT);
+		expand_singarr_to_size(outroot,0,outrootLen,TEXT_strlen((TEXT *)name)+1,TEXT);
 	      }
               TEXT_strcpy(outroot, (TEXT *)name);	      
 	    }
@@ -267,7 +267,11 @@ int main(int argc, char **argv){
 		exit(1);
 	    }
 	} else { /* input came from piped input */
+	    char *name;
 	    /* Set up the output root name */
+	    if (strlen(scor[nsc]->title) + 2 > hdirLen){
+		expand_singarr_to_size(hdir,0,hdirLen,strlen(scor[nsc]->title)+2,TEXT);
+	    }
 	    if ((hroot = strrchr(scor[nsc]->title,'/')) != NULL){
 		strncpy((char *)hdir,scor[nsc]->title,hroot-scor[nsc]->title);
 		hdir[hroot-scor[nsc]->title] = '\0';
@@ -278,10 +282,14 @@ int main(int argc, char **argv){
 	    }
 	    if ((out_dir != (char *)0) ||
 		strcmp(((out_dir != (char *)0) ? out_dir : (char *)hdir),".") != 0)
-	      sprintf((char *)outroot,"%s/%s",((out_dir != (char *)0) ? out_dir : (char *)hdir),
+	      name = rsprintf("%s/%s",((out_dir != (char *)0) ? out_dir : (char *)hdir),
 		      (out_name != (char *)0) ? out_name : hroot);
 	    else
-	      sprintf((char *)outroot,"%s",(out_name != (char *)0) ? out_name : hroot);
+	      name = rsprintf("%s",(out_name != (char *)0) ? out_name : hroot);
+	    if (outrootLen < TEXT_strlen((TEXT *)name)+1){
+		expand_singarr_to_size(outroot,0,outrootLen,TEXT_strlen((TEXT *)name)+1,TEXT);
+	    }
+	    TEXT_strcpy(outroot, (TEXT *)name);
 	}	    
 	
 	if (BF_isSET(outputs,OUT_SUM))
-- 
2.43.0


From 6558916e3072d84c46be9bfa1d51bed92d41613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:27 +0000
Subject: [PATCH 36/47] fix: with several hypothesis files, -n names the output
 'name'.'hypfile' as documented

---
 src/sclite/sclite.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 22e3721..6538647 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -113,6 +113,7 @@ int main(int argc, char **argv){
     int pipeout;
     int pipein;
     int num_piped;
+    int multiple;
     int nh;
     char *hroot;
     int hdirLen = FILENAME_MAX;
@@ -173,6 +174,9 @@ int main(int argc, char **argv){
       wwl->curw = 0;
     }
 
+    /* several systems do not share the output files named by -n */
+    multiple = (out_name != (char *)0 && num_hyps + num_piped > 1);
+
     for (nsc=0; nsc<num_hyps + num_piped; nsc++){
 	if (nsc >= num_piped){
 	    nh = nsc - num_piped;
@@ -195,10 +199,12 @@ int main(int argc, char **argv){
 	    { char *name;
 	      if ((out_dir != (char *)0) ||
 		  TEXT_strcmp(((out_dir != (char *)0) ? (TEXT *)out_dir : (TEXT *)hdir),(TEXT *)".") != 0)
-                name = rsprintf("%s/%s",((out_dir != (char *)0) ? out_dir : (char *)hdir),
-				(out_name != (char *)0) ? out_name : hroot);
+                name = rsprintf("%s/%s%s%s",((out_dir != (char *)0) ? out_dir : (char *)hdir),
+				(out_name != (char *)0) ? out_name : hroot,
+				multiple ? "." : "", multiple ? hroot : "");
 	      else
-	        name = rsprintf("%s",(out_name != (char *)0) ? out_name : hroot);
+	        name = rsprintf("%s%s%s",(out_name != (char *)0) ? out_name : hroot,
+				multiple ? "." : "", multiple ? hroot : "");
 	      if (outrootLen < TEXT_strlen((TEXT *)name)+1){
 		expand_singarr_to_size(outroot,0,outrootLen,TEXT_strlen((TEXT *)name)+1,TEXT);
 	      }
@@ -282,10 +288,12 @@ int main(int argc, char **argv){
 	    }
 	    if ((out_dir != (char *)0) ||
 		strcmp(((out_dir != (char *)0) ? out_dir : (char *)hdir),".") != 0)
-	      name = rsprintf("%s/%s",((out_dir != (char *)0) ? out_dir : (char *)hdir),
-		      (out_name != (char *)0) ? out_name : hroot);
+	      name = rsprintf("%s/%s%s%s",((out_dir != (char *)0) ? out_dir : (char *)hdir),
+		      (out_name != (char *)0) ? out_name : hroot,
+				multiple ? "." : "", multiple ? hroot : "");
 	    else
-	      name = rsprintf("%s",(out_name != (char *)0) ? out_name : hroot);
+	      name = rsprintf("%s%s%s",(out_name != (char *)0) ? out_name : hroot,
+				multiple ? "." : "", multiple ? hroot : "");
 	    if (outrootLen < TEXT_strlen((TEXT *)name)+1){
 		expand_singarr_to_size(outroot,0,outrootLen,TEXT_strlen((TEXT *)name)+1,TEXT);
 	    }
-- 
2.43.0


From 20eb1f5eaebb71e803cff88c98c21ffff81c1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 37/47] fix: write words of any length to the SGML alignments

---
 src/sclite/scores.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 6e89e05..82459d4 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -136,7 +136,16 @@ void dump_SCORES_alignments(SCORES *sc, FILE *fp, int lw, int full){
     fprintf(fp,"\n");
 }
 
-TEXT *formatWordForSGML(WORD *word, TEXT *buffer){
+TEXT *formatWordForSGML(WORD *word, TEXT **bufferPtr, int *bufferLen){
+  TEXT *buffer;
+  /* every character may need an escape, plus two separators and the end */
+  int need = 2 * (TEXT_strlen(word->value) +
+		  ((word->tag1 != (TEXT *)0) ? TEXT_strlen(word->tag1) : 0) +
+		  ((word->tag2 != (TEXT *)0) ? TEXT_strlen(word->tag2) : 0)) + 3;
+
+  if (need > *bufferLen)
+    expand_singarr_to_size(*bufferPtr,0,*bufferLen,need,TEXT);
+  buffer = *bufferPtr;
   TEXT_strcpy_escaped(buffer, word->value, WORD_SGML_SUB_WORD_SEP_CHR);
 
   if (word->tag1 == (TEXT *)0 && word->tag2 == (TEXT *)0)
@@ -153,8 +162,11 @@ TEXT *formatWordForSGML(WORD *word, TEXT *buffer){
 
 void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_attribute_separator){
     int i, p, w;
-    TEXT bufA[1000];
-    TEXT bufB[1000];
+    int bufALen = 1000, bufBLen = 1000;
+    TEXT *bufA, *bufB;
+
+    alloc_singarr(bufA,bufALen,TEXT);
+    alloc_singarr(bufB,bufBLen,TEXT);
 
     fprintf(fp,"<SYSTEM title=\"%s\"",sc->title);
     fprintf(fp," ref_fname=\"%s\"",sc->ref_fname);
@@ -256,26 +268,26 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
 	    for (w=0; w<path->num; w++) {
 		if (path->pset[w].eval == P_INS)
 		  fprintf(fp,"I%s%s\"%s\"", token_attribute_separator, token_attribute_separator, 
-			  formatWordForSGML((WORD *)path->pset[w].b_ptr, bufB));
+			  formatWordForSGML((WORD *)path->pset[w].b_ptr, &bufB, &bufBLen));
 		else if (path->pset[w].eval == P_DEL)
 		    fprintf(fp,"D%s\"%s\"%s",token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].a_ptr, bufA),
+			    formatWordForSGML((WORD *)path->pset[w].a_ptr, &bufA, &bufALen),
 			    token_attribute_separator);
 		else if (path->pset[w].eval == P_CORR)
 		    fprintf(fp,"C%s\"%s\"%s\"%s\"",
 			    token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].a_ptr, bufA),
+			    formatWordForSGML((WORD *)path->pset[w].a_ptr, &bufA, &bufALen),
 			    token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].b_ptr, bufB));
+			    formatWordForSGML((WORD *)path->pset[w].b_ptr, &bufB, &bufBLen));
 		else {
 		    fprintf(fp,"%c%s\"%s\"%s\"%s\"",			    
 			    ((path->pset[w].eval == P_SUB) ? 'S' :
 			     ((path->pset[w].eval == P_MRG) ? 'M' : 
 			      ((path->pset[w].eval == P_SPL) ? 'T' : 'U'))),
 			    token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].a_ptr, bufA),
+			    formatWordForSGML((WORD *)path->pset[w].a_ptr, &bufA, &bufALen),
 			    token_attribute_separator, 
-		            formatWordForSGML((WORD *)path->pset[w].b_ptr, bufB));
+		            formatWordForSGML((WORD *)path->pset[w].b_ptr, &bufB, &bufBLen));
 		}
 		/* Extra attributes */
 		if (BF_isSET(path->attrib,PA_REF_WTIMES)){
@@ -336,6 +348,8 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     }
 
     fprintf(fp,"</SYSTEM>\n");
+    free_singarr(bufA,TEXT);
+    free_singarr(bufB,TEXT);
 }
  
 int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
-- 
2.43.0


From 7c4c8e5cbb25b7fdac24625a1207127de9dbbad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 38/47] fix: read the tags of a word back from the SGML
 alignments

---
 src/sclite/scores.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 82459d4..21cea8d 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -351,7 +351,25 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     free_singarr(bufA,TEXT);
     free_singarr(bufB,TEXT);
 }
- 
+/* Undo formatWordForSGML: 'len' bytes of 'str' are VALUE[;TAG1;TAG2] */
+static void setWordFromSGML(WORD *word, TEXT *str, int len){
+    TEXT *end = str + len, *to, **elem[3];
+    int e;
+
+    elem[0] = &(word->value); elem[1] = &(word->tag1); elem[2] = &(word->tag2);
+    for (e=0; e<3 && str <= end; e++, str++){
+	alloc_singarr(to,len + 1,TEXT);
+	*(elem[e]) = to;
+	for (; str < end && (*str != WORD_SGML_SUB_WORD_SEP_CHR || e == 2); str++){
+	    if (*str == WORD_SGML_ESCAPE && str + 1 < end &&
+		*(str+1) == WORD_SGML_SUB_WORD_SEP_CHR)
+		str++;
+	    *to++ = *str;
+	}
+	*to = '\0';
+    }
+}
+
 int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 {
     char *proc="load_SCORES_sgml", *msg;
@@ -646,7 +664,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 			goto FAIL;
 		    }
 		    p2 = TEXT_strchr(p1+2,'"');
-		    wd1->value = TEXT_strBdup(p1+2,p2 - (p1+2));
+		    setWordFromSGML(wd1,p1+2,p2 - (p1+2));
 		    p1 = p2+1;
 		    if (dbg)
 			fprintf(scfp,"%s: first word '%s'\n",proc,wd1->value);
@@ -665,7 +683,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 			goto FAIL;
 		    }
 		    p2 = TEXT_strchr(p1+2,'"');
-		    wd2->value = TEXT_strBdup(p1+2,p2 - (p1+2));
+		    setWordFromSGML(wd2,p1+2,p2 - (p1+2));
 		    p1 = p2+1;
 		    if (dbg) fprintf(scfp,"%s: second word '%s'\n",
 				     proc,wd2->value);
-- 
2.43.0


From db1950245ffe436acb29333ce46208157b9b6e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 39/47] fix: read more words of an SGML alignment than its
 word_cnt

---
 src/sclite/scores.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 21cea8d..b4c36ae 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -618,6 +618,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 		if (dbg) fprintf(scfp,"%s:     token %s\n",proc,token);
 		
 		/* pick of the evaluation flag */
+		check_space_in_PATH(path);
 		switch (*token){
 		  case 'I': { path->pset[path->num].eval = P_INS;  break; }
 		  case 'D': { path->pset[path->num].eval = P_DEL;  break; }
-- 
2.43.0


From cb7e80784f3342c1db666a53f9d730880112ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 40/47] fix: refuse an SGML alignment with an unfinished word
 or time

---
 src/sclite/scores.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index b4c36ae..f874767 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -664,7 +664,11 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 				       p1,token);
 			goto FAIL;
 		    }
-		    p2 = TEXT_strchr(p1+2,'"');
+		    if ((p2 = TEXT_strchr(p1+2,'"')) == NULL) {
+			msg = rsprintf("Word parse error, at %s of %s",
+				       p1,token);
+			goto FAIL;
+		    }
 		    setWordFromSGML(wd1,p1+2,p2 - (p1+2));
 		    p1 = p2+1;
 		    if (dbg)
@@ -683,7 +687,11 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 			msg = rsprintf("Word parse error, at %s",token);
 			goto FAIL;
 		    }
-		    p2 = TEXT_strchr(p1+2,'"');
+		    if ((p2 = TEXT_strchr(p1+2,'"')) == NULL) {
+			msg = rsprintf("Word parse error, at %s of %s",
+				       p1,token);
+			goto FAIL;
+		    }
 		    setWordFromSGML(wd2,p1+2,p2 - (p1+2));
 		    p1 = p2+1;
 		    if (dbg) fprintf(scfp,"%s: second word '%s'\n",
@@ -715,6 +723,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 				    if ((p3 = TEXT_strchr(p1,'+'))==NULL){
 					msg = rsprintf("Illegal auxiliary time"
 						   " format '%s'",p1);
+					goto FAIL;
 				    }
 				    *p3 = '\0';
 				    ((WORD *)path->pset[path->num].a_ptr)->T1 =
@@ -729,6 +738,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 				    if ((p3 = TEXT_strchr(p1,'+'))==NULL){
 					msg = rsprintf("Illegal auxiliary time"
 						   " format '%s'",p1);
+					goto FAIL;
 				    }
 				    *p3 = '\0';
 				    ((WORD *)path->pset[path->num].b_ptr)->T1 =
-- 
2.43.0


From 3c724b87113ec4714f1a75490708cc05b42b7235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 41/47] fix: ignore the auxiliary values an SGML alignment does
 not define

---
 src/sclite/scores.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index f874767..8319214 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -708,6 +708,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 			if (aux_val == num_word_aux){
 			    fprintf(scfp,"Warning: More auxiliary word values "
 				    "than defined\n");
+			    break;
 			}
 			/* handle the auxilliary values */
 			if ((p2 = TEXT_strchr(p1+1,',')) == NULL)
-- 
2.43.0


From c7457c8340083a903252114ad09b6330064f62d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 42/47] fix: refuse an SGML tag with more attributes than there
 is room for

---
 src/sclite/sgml.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sclite/sgml.c b/src/sclite/sgml.c
index c750163..202bcb7 100644
--- a/src/sclite/sgml.c
+++ b/src/sclite/sgml.c
@@ -69,6 +69,7 @@ int add_SGML_tag(SGML *sg, TEXT *str)
     /* begin with the attributes */
     ac = &(sg->tags[sg->num_tags].attrib_num);
     while (*b != '\0'){
+	if (*ac >= MAX_ATTRIB) return(0);
 	b += TEXT_strspn(b,(TEXT *)" \t\n");
 	if ((l = TEXT_strcspn(b,(TEXT *)"=\n")) == 0) return (0);
 	sg->tags[sg->num_tags].attrib_name[*ac] = TEXT_strBdup(b,l);
-- 
2.43.0


From 5e917985f053c28cc1c3ffdd321b79b9b39f1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 43/47] fix: print an alignment whose words are wider than the
 line

---
 src/sclite/path.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sclite/path.c b/src/sclite/path.c
index 13fab30..ddcc8ba 100644
--- a/src/sclite/path.c
+++ b/src/sclite/path.c
@@ -134,6 +134,8 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 	}
 	if (used > 0) fprintf(fp,"\n");
 	endpass = i - ((i < to) ? 1 : 0);
+	/* a word wider than the line gets a line of its own */
+	if (endpass <= used) endpass = used + 1;
 
 	for (line=0; line<11; line++){
 	    switch(line) {
@@ -387,6 +389,8 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 	}
 	if (used > 0) fprintf(fp,"\n");
 	endpass = i - ((i < to) ? 1 : 0);
+	/* a word wider than the line gets a line of its own */
+	if (endpass <= used) endpass = used + 1;
 
 	fprintf(fp,"<TABLE CELLSPACING=0 CELLPADDING=1>\n");
 
-- 
2.43.0


From f0d6d0117c230be007d8adb50fb60d9c3387347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 44/47] fix: print an inserted or deleted word of more than 40
 bytes

---
 src/sclite/path.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sclite/path.c b/src/sclite/path.c
index ddcc8ba..51fa6dd 100644
--- a/src/sclite/path.c
+++ b/src/sclite/path.c
@@ -203,7 +203,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 0: {
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + ((lenb < alen) ? alen - lenb : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -240,7 +240,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 4: {	
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + ((lena < alen) ? alen - lena : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
@@ -472,7 +472,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 0: {
 		      sprintf(fmt,"<TD>%%-%ds</TD>",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + ((lenb < alen) ? alen - lenb : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -505,7 +505,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 4: {	
 		      sprintf(fmt,"<TD>%%s</TD>");
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + ((lena < alen) ? alen - lena : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
-- 
2.43.0


From 1973a5d59118c2671a9c01c60a121dd5d3860b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:49 +0000
Subject: [PATCH 45/47] fix: print the alignments of utterances numbered 999999
 and up

The full alignment report (-o prf) looked for the next utterance among those
with a sequence number below 999999; the others were left out.
---
 src/sclite/scores.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 8319214..4c28088 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -91,7 +91,8 @@ void dump_SCORES_alignments(SCORES *sc, FILE *fp, int lw, int full){
 	      nextgrp = -1;
 	      for (i=0; i<sc->num_grp; i++)
 		if (curpath[i] < sc->grp[i].num_path)
-		  if (sc->grp[i].path[curpath[i]]->sequence < minseq){
+		  if (nextgrp < 0 ||
+		      sc->grp[i].path[curpath[i]]->sequence < minseq){
 		    minseq = sc->grp[i].path[curpath[i]]->sequence;
 		    nextgrp = i;
 		  }
-- 
2.43.0


From 179497787a2d25e7908ea381cf5b54edaadc1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:49 +0000
Subject: [PATCH 46/47] fix: the normal approximation to the binomial
 distribution uses R + 1/2, not R / 2

compute_acc_binomial halved the number of successes where the continuity
correction adds a half, so for more than 20 cases the McNemar and sign tests
found differences that are not there: 12 of 25 gave p = 0.009 rather than 1.
---
 src/sclite/statdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index 3a34163..291d0a9 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -786,7 +786,7 @@ double compute_acc_binomial(int R, int n, double p)
       double mean, stdev, zstat, flip;
       mean = n*p;
       stdev = sqrt(n*p*(1.0-p));
-      flip = (double)R * 0.5;
+      flip = (double)R + 0.5;
       zstat = (flip - mean) / stdev;
       sum = normprob((double)fabs(zstat));
       if (zstat < 0.0)  sum = 1.0 - sum;
-- 
2.43.0


From e563152368785e88e6dd8188184a6c07804c710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:42 +0000
Subject: [PATCH 47/47] fix: pair the speakers of the systems by name, not by
 position

init_RANK_struct_from_SCORES put the g'th speaker of every system in
block g, so systems whose speakers come in a different order had the
rates of different speakers compared by the sign, Wilcoxon and ANOVA
tests. Blocks are now the speakers all systems have.
---
 src/sclite/rank.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/sclite/rank.c b/src/sclite/rank.c
index 9773ee0..5062a2a 100644
--- a/src/sclite/rank.c
+++ b/src/sclite/rank.c
@@ -12,13 +12,26 @@
 
 #include "sctk.h"
 
+/**********************************************************************/
+/*   return the index of the named speaker in a system, or -1         */
+/**********************************************************************/
+static int find_speaker(SCORES *sc, char *name)
+{
+    int g;
+
+    for (g=0; g<sc->num_grp; g++)
+	if (strcmp(sc->grp[g].name, name) == 0)
+	    return(g);
+    return(-1);
+}
+
 /**********************************************************************/
 /*   initialize and allocate memory for the RANK structure from the   */
 /*   SYS_ALIGN_LIST                                                   */
 /**********************************************************************/
 void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *calc_formula)
 {
-    int blk=0,trt,i,n,mlen=0,msclen=0,g;
+    int blk=0,trt,i,n,mlen=0,msclen=0,g,b,*spkr;
     int c,s,d;
 
     /* set it to the max number of speakers for all systems */
@@ -33,13 +46,25 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
     }
     trt = nscor;
 
+    /* the systems can only be compared on the speakers that all of them have */
+    alloc_singarr(spkr,blk,int);
+    blk = 0;
+    for (g=0; nscor > 0 && g<scor[0]->num_grp; g++){
+	for (n=1; n<nscor; n++)
+	    if (find_speaker(scor[n],scor[0]->grp[g].name) < 0)
+		break;
+	if (n < nscor)
+	    fprintf(stderr,"Warning: Speaker %s is in system %s but not system %s\n",
+		    scor[0]->grp[g].name,scor[0]->title,scor[n]->title);
+	else
+	    spkr[blk++] = g;
+    }
+
     rank->n_blk  = blk;
     rank->n_trt  = trt;
     alloc_2dimarr(rank->blk_name,blk,mlen+1,char);
-    /* copy in only what's available from the first system */
     for (i=0; i<blk; i++)
-	if (i < scor[0]->num_grp)
-	    strcpy(rank->blk_name[i] ,scor[0]->grp[i].name);
+	strcpy(rank->blk_name[i] ,scor[0]->grp[spkr[i]].name);
     alloc_2dimarr(rank->trt_name,trt,msclen+1,char);
     for (i=0; i<trt; i++){
         strcpy(rank->trt_name[i],scor[i]->title);
@@ -53,20 +78,21 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
     alloc_singarr(rank->trt_srt_ind ,blk,int);
 
     for (n=0; n<nscor; n++)
-	for (g=0; g<scor[n]->num_grp; g++){
+	for (b=0; b<blk; b++){
+	    g = find_speaker(scor[n],scor[0]->grp[spkr[b]].name);
 	    c = scor[n]->grp[g].corr;
 	    s = scor[n]->grp[g].sub; 
 	    d = scor[n]->grp[g].del;
 	    i = scor[n]->grp[g].ins;
             switch (*calc_formula) {
 	      case 'R':
-		rank->pcts[g][n] = pct(c, (c + s + d));
+		rank->pcts[b][n] = pct(c, (c + s + d));
 		break;
 	      case 'E':
-		rank->pcts [g][n] = pct((i + s + d),(c + d + s));
+		rank->pcts [b][n] = pct((i + s + d),(c + d + s));
 		break;
 	      case 'W':
-		rank->pcts[g][n] = 100.0000 - 
+		rank->pcts[b][n] = 100.0000 - 
 		    pct((i + s + d),(c + d + s));
 		break;
 	      default:
@@ -74,6 +100,7 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
 		break;
 	    }
 	}
+    free_singarr(spkr,int);
 
     if (*calc_formula == 'E' )
         rank_on_pcts(rank,INCREASING);
-- 
2.43.0

