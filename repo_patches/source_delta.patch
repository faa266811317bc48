From e2929b3cf50130749e1dbc9f144bdff336670328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 001/115] fix: StlPhraseTable queries no longer insert unknown
 target phrases nor dereference an empty table

---
 src/phrase_models/StlPhraseTable.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/phrase_models/StlPhraseTable.cc b/src/phrase_models/StlPhraseTable.cc
index 512ba01..f59db24 100644
--- a/src/phrase_models/StlPhraseTable.cc
+++ b/src/phrase_models/StlPhraseTable.cc
@@ -317,6 +317,13 @@ Count StlPhraseTable::getSrcTrgInfo(const std::vector<WordIndex>& s,
                                     const std::vector<WordIndex>& t,
                                     bool &found)
 {
+    // A query for an unknown target phrase must not add it to the table
+    if (trgPhraseInfo.find(t) == trgPhraseInfo.end())
+    {
+        found = false;
+        return 0;
+    }
+
     SrcTrgKey srcTrgKey = getSrcTrgKey(s, t, found);
     if (!found) return 0;
 
@@ -390,6 +397,10 @@ bool StlPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
     bool found;
     srctn.clear();  // Make sure that structure does not keep old values
 
+    // A query for an unknown target phrase must not add it to the table
+    if (srcPhraseInfo.empty() || trgPhraseInfo.find(t) == trgPhraseInfo.end())
+        return false;
+
     // Prepare iterators
     SrcTrgKey srcTrgBegin = getSrcTrgKey(srcPhraseInfo.begin()->first, t, found);
     if (!found) return false;
-- 
2.43.0


From 8d0e8a09d1c93bb5bb63f46e6e23780fbf133c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 002/115] fix: HatTriePhraseTable::getEntriesForSource keeps
 entries with fractional counts below one

---
 src/phrase_models/HatTriePhraseTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/HatTriePhraseTable.cc b/src/phrase_models/HatTriePhraseTable.cc
index b9fca7b..f860743 100644
--- a/src/phrase_models/HatTriePhraseTable.cc
+++ b/src/phrase_models/HatTriePhraseTable.cc
@@ -445,7 +445,7 @@ bool HatTriePhraseTable::getEntriesForSource(const std::vector<WordIndex>& s,
         ppi.first = cTrg(trgPhrase);  // t count
         ppi.second = iter.value();  // (s, t) count
 
-        if ((int) ppi.first.get_c_s() == 0 || (int) ppi.second.get_c_s() == 0)
+        if (fabs(ppi.first.get_c_s()) < EPSILON || fabs(ppi.second.get_c_s()) < EPSILON)
             continue;
 
         trgtn.insert(std::pair<std::vector<WordIndex>, PhrasePairInfo>(trgPhrase, ppi));
-- 
2.43.0


From 697a02c1bc232508e2757e9085282c1f73a0ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 003/115] fix: HatTriePhraseTable::begin does not read past the
 end of a table without target phrases

---
 src/phrase_models/HatTriePhraseTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/HatTriePhraseTable.cc b/src/phrase_models/HatTriePhraseTable.cc
index f860743..760c46e 100644
--- a/src/phrase_models/HatTriePhraseTable.cc
+++ b/src/phrase_models/HatTriePhraseTable.cc
@@ -555,7 +555,7 @@ HatTriePhraseTable::const_iterator HatTriePhraseTable::begin(void) const
 {
     // Shift the iterator to the first target phrase
     PhraseTable::const_iterator iterTrgBegin = phraseTable.begin();
-    while (!isTargetPhrase(keyToVector(iterTrgBegin.key())))
+    while (iterTrgBegin != phraseTable.end() && !isTargetPhrase(keyToVector(iterTrgBegin.key())))
     {
         iterTrgBegin++;
     }
-- 
2.43.0


From 7d6131f4b0286c16d247a7ca8fadf6848b51b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 004/115] fix: perplexity ignores blank corpus lines instead of
 adding the previous (or an uninitialised) log-probability again

---
 src/nlp_common/BaseNgramLM.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlp_common/BaseNgramLM.h b/src/nlp_common/BaseNgramLM.h
index 89ddaf6..80e488f 100644
--- a/src/nlp_common/BaseNgramLM.h
+++ b/src/nlp_common/BaseNgramLM.h
@@ -289,9 +289,9 @@ int BaseNgramLM<LM_STATE>::perplexity(const char *corpusFileName,
           else std::cerr<<v[i]<<std::endl;
         }
       }
+      totalLogProb+=logp; 
+      ++numOfSentences;	 
     }
-    totalLogProb+=logp; 
-    ++numOfSentences;	 
   }
 
   perp=exp(-((double)totalLogProb/(numWords+numOfSentences))*M_LN10);
-- 
2.43.0


From bc5ed0fa13f26d5a9c2a107431de44dba9664fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 005/115] fix: vecx_x_incr_enc::genHSrcCode assigns a single
 code to a new symbol that appears more than once

---
 src/incr_models/vecx_x_incr_enc.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_enc.h b/src/incr_models/vecx_x_incr_enc.h
index 8f5650e..aae27fe 100644
--- a/src/incr_models/vecx_x_incr_enc.h
+++ b/src/incr_models/vecx_x_incr_enc.h
@@ -217,6 +217,7 @@ template<class HX,class X>
 std::vector<X> vecx_x_incr_enc<HX,X>::genHSrcCode(const std::vector<HX> &hs)
 {
   typename std::map<HX,X>::iterator iter;
+  std::map<HX,X> newCodes;
   std::vector<X> vecx;
   unsigned int i;
 
@@ -225,8 +226,18 @@ std::vector<X> vecx_x_incr_enc<HX,X>::genHSrcCode(const std::vector<HX> &hs)
     iter=hx_to_x.find(hs[i]);
     if(iter==hx_to_x.end())
     {
-      ++x_object;
-      vecx.push_back(x_object);
+          // A symbol repeated in hs should always receive the same code
+      iter=newCodes.find(hs[i]);
+      if(iter==newCodes.end())
+      {
+        ++x_object;
+        newCodes[hs[i]]=x_object;
+        vecx.push_back(x_object);
+      }
+      else
+      {
+        vecx.push_back(iter->second);
+      }
     }
     else
     {
-- 
2.43.0


From 72d5a14c1599b7a6b342d88588d1f5b671fb5dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 006/115] fix: symbols added after loading encoding information
 do not reuse the codes of loaded symbols

---
 src/incr_models/vecx_x_incr_enc.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_enc.h b/src/incr_models/vecx_x_incr_enc.h
index aae27fe..ef68b3a 100644
--- a/src/incr_models/vecx_x_incr_enc.h
+++ b/src/incr_models/vecx_x_incr_enc.h
@@ -305,12 +305,14 @@ bool vecx_x_incr_enc<HX,X>::load(const char *prefixFileName)
   }
   else
   {
-    while(ifile)
+    while(ifile>>hx>>x)
     {
-      ifile>>hx>>x;
           //cout<<s<< " ||| " <<t<<" ||| "<<inf<<std::endl;
       this->hx_to_x[hx]=x;
       this->x_to_hx[x]=hx;
+          // Codes generated from now on should not collide with the
+          // loaded ones
+      if(x_object<x) x_object=x;
     }
     return THOT_OK;
   }  
-- 
2.43.0


From 577c1083e1cccc64e6d7ac4597125d8bbde360e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 007/115] fix: LevelDbNgramTable::incrCountsOfEntryLog updates
 the count of the empty history

---
 src/incr_models/LevelDbNgramTable.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index 2faca8a..fb1399a 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -348,6 +348,15 @@ void LevelDbNgramTable::incrCountsOfEntryLog(const std::vector<WordIndex>& s,
 
     // Update counts
     addSrcTrgInfo(s, t, src_trg_count);  // (s, t)
+
+    // The count of a non-empty s is stored as that of the n-gram s, but the
+    // count of the empty history has to be updated explicitly
+    if (s.size() == 0)
+    {
+        Count src_count = cSrc(s);
+        src_count.incr_logcount((float) lc);
+        addSrcInfo(s, src_count);
+    }
 }
 
 //-------------------------
-- 
2.43.0


From 630fe8cf43d135de99264f0d82053b92a3b628a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 008/115] fix: LevelDB tables store counts with enough digits
 to recover them exactly

---
 src/incr_models/LevelDbNgramTable.cc    | 1 +
 src/phrase_models/LevelDbPhraseTable.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index fb1399a..ffd7b8d 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -150,6 +150,7 @@ bool LevelDbNgramTable::retrieveData(const std::vector<WordIndex>& phrase, float
 bool LevelDbNgramTable::storeData(const std::string key, float count)
 {
     std::stringstream ss;
+    ss.precision(9);  // Enough digits to recover any float value exactly
     ss << count;
     std::string count_str = ss.str();
 
diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index c50a7a0..3297845 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -105,6 +105,7 @@ bool LevelDbPhraseTable::retrieveData(const std::vector<WordIndex>& phrase, int
 bool LevelDbPhraseTable::storeData(const std::vector<WordIndex>& phrase, int count)const
 {
     std::stringstream ss;
+    ss.precision(9);  // Enough digits to recover any float value exactly
     ss << count;
     std::string count_str = ss.str();
 
-- 
2.43.0


From 83b0778704e3b06fab224796bda39681f819ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 009/115] fix: IncrJelMerLevelDbNgramLM::print saves the
 vocabulary, so that words learned online are not lost on reload

---
 src/incr_models/IncrJelMerLevelDbNgramLM.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/incr_models/IncrJelMerLevelDbNgramLM.cc b/src/incr_models/IncrJelMerLevelDbNgramLM.cc
index 07add37..8e2c3b5 100644
--- a/src/incr_models/IncrJelMerLevelDbNgramLM.cc
+++ b/src/incr_models/IncrJelMerLevelDbNgramLM.cc
@@ -117,6 +117,13 @@ bool IncrJelMerLevelDbNgramLM::print(const char *fileName)
   {
         // Print weights
     int ret=printWeights(fileName);
+    if(ret==THOT_ERROR)
+      return THOT_ERROR;
+
+        // Print vocabulary (n-gram counts are already stored in the
+        // database, but they refer to the codes of the words)
+    std::string vocabFileName = fileNameStl + ".ldb_vcb";
+    ret=this->encPtr->print(vocabFileName.c_str());
     if(ret==THOT_ERROR)
       return THOT_ERROR;
 
-- 
2.43.0


From 12bcba8b0882a050ad9a60d4bf99f345b59cf0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 010/115] fix: WordAligMatrix::getAligVec returns the source
 positions that putAligVec takes

---
 src/nlp_common/WordAligMatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index 85c460e..ca1ebaf 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -116,7 +116,7 @@ bool WordAligMatrix::getAligVec(std::vector<PositionIndex>& aligVec)
     {
       if(matrix[i][j]!=0)
       {
-        if(aligVec[j]==0) aligVec[j]=i;
+        if(aligVec[j]==0) aligVec[j]=i+1;
         else
         {
           aligVec.clear();
-- 
2.43.0


From e4bcbb29122850604febe62ddd81eaacb355187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 011/115] fix: log-domain subtraction yields no NaN when
 rounding makes the subtrahend slightly greater

---
 src/nlp_common/MathFuncs.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nlp_common/MathFuncs.cc b/src/nlp_common/MathFuncs.cc
index 38fc250..dbf2d42 100644
--- a/src/nlp_common/MathFuncs.cc
+++ b/src/nlp_common/MathFuncs.cc
@@ -335,6 +335,8 @@ namespace MathFuncs
   //-------------------------
   double lns_sublog(double logx,double logy)
   { 
+        // logy may be slightly greater than logx due to rounding errors
+    if(logy>logx) logy=logx;
     return logx+log(1-exp(logy-logx));
   }
   
@@ -366,6 +368,8 @@ namespace MathFuncs
   //-------------------------
   float lns_sublog_float(float logx,float logy)
   { 
+        // logy may be slightly greater than logx due to rounding errors
+    if(logy>logx) logy=logx;
     return logx+log(1-exp(logy-logx));
   }
 
-- 
2.43.0


From 0ce69726a8d1e0e2b7d3df4b91652a28fb05e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 012/115] fix: saving and loading alignment models does not mix
 up the size limits of expected values of different models

---
 src/sw_models/anjiMatrix.cc         | 10 ++++++++--
 src/sw_models/anjm1ip_anjiMatrix.cc | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sw_models/anjiMatrix.cc b/src/sw_models/anjiMatrix.cc
index de2f08f..6b6a050 100644
--- a/src/sw_models/anjiMatrix.cc
+++ b/src/sw_models/anjiMatrix.cc
@@ -154,6 +154,7 @@ bool anjiMatrix::load(const char* prefFileName)
 {
       // Clear data structures
   clear();
+  anji_maxnsize=UNRESTRICTED_ANJI_SIZE;
 
       // Load information from files
   bool retVal;
@@ -252,13 +253,18 @@ bool anjiMatrix::print(const char* prefFileName)
   retVal=print_anji_values(anjiFile.c_str());
   if(retVal==THOT_ERROR) return THOT_ERROR;
 
+  std::string maxnsizeDataFile=prefFileName;
+  maxnsizeDataFile=maxnsizeDataFile+".msinfo";
   if(anji_maxnsize!=UNRESTRICTED_ANJI_SIZE)
   {
-    std::string maxnsizeDataFile=prefFileName;
-    maxnsizeDataFile=maxnsizeDataFile+".msinfo";
     retVal=print_maxnsize_data(maxnsizeDataFile.c_str());
     if(retVal==THOT_ERROR) return THOT_ERROR;
   }
+  else
+  {
+        // Remove data of a previously saved model with restricted size
+    remove(maxnsizeDataFile.c_str());
+  }
   
   return THOT_OK;
 }
diff --git a/src/sw_models/anjm1ip_anjiMatrix.cc b/src/sw_models/anjm1ip_anjiMatrix.cc
index 5326a2e..7a2972a 100644
--- a/src/sw_models/anjm1ip_anjiMatrix.cc
+++ b/src/sw_models/anjm1ip_anjiMatrix.cc
@@ -407,6 +407,7 @@ bool anjm1ip_anjiMatrix::load(const char* prefFileName)
 {
       // Clear data structures
   clear();
+  anjm1ip_anji_maxnsize=UNRESTRICTED_ANJM1IP_ANJI_SIZE;
 
       // Load information from files
   bool retVal;
@@ -506,13 +507,18 @@ bool anjm1ip_anjiMatrix::print(const char* prefFileName)
   retVal=print_matrix_values(matrixFile.c_str());
   if(retVal==THOT_ERROR) return THOT_ERROR;
 
+  std::string maxnsizeDataFile=prefFileName;
+  maxnsizeDataFile=maxnsizeDataFile+".msinfo";
   if(anjm1ip_anji_maxnsize!=UNRESTRICTED_ANJM1IP_ANJI_SIZE)
   {
-    std::string maxnsizeDataFile=prefFileName;
-    maxnsizeDataFile=maxnsizeDataFile+".msinfo";
     retVal=print_maxnsize_data(maxnsizeDataFile.c_str());
     if(retVal==THOT_ERROR) return THOT_ERROR;
   }
+  else
+  {
+        // Remove data of a previously saved model with restricted size
+    remove(maxnsizeDataFile.c_str());
+  }
   
   return THOT_OK;
 }
-- 
2.43.0


From 975ad61b588d16b8713ce2555e66ce657fa1f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 013/115] fix: map-reduce training of word models keeps the
 alignment table for all chunks

---
 utils/sw_models/thot_gen_batch_sw_model_mr.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sw_models/thot_gen_batch_sw_model_mr.sh b/utils/sw_models/thot_gen_batch_sw_model_mr.sh
index 3092d83..751eb75 100644
--- a/utils/sw_models/thot_gen_batch_sw_model_mr.sh
+++ b/utils/sw_models/thot_gen_batch_sw_model_mr.sh
@@ -435,7 +435,7 @@ create_filtered_model()
     filter_lex_table || return 1
 
     # Copy current alignment file
-    if [ ${chunk_id} -eq 1 -a ${alig_ext} != "none" ]; then 
+    if [ ${alig_ext} != "none" ]; then 
         cp "${curr_tables_dir}"/merged_alig_counts "${filtered_model_dir}"/model.${alig_ext}
     fi
 }
-- 
2.43.0


From 913750ecc20d17d4939973e8bf7249f5df304f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 014/115] fix: the stack decoder leaves breadth-first search
 when it is switched off

---
 src/stack_dec/_stackDecoder.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stack_dec/_stackDecoder.h b/src/stack_dec/_stackDecoder.h
index 09a9838..18f37ec 100644
--- a/src/stack_dec/_stackDecoder.h
+++ b/src/stack_dec/_stackDecoder.h
@@ -285,6 +285,8 @@ void _stackDecoder<SMT_MODEL>::set_breadthFirst(bool b)
       // Initialize pointer to multiple stack if the dynamic cast is
       // succesfull (this pointer is used in the pop() function)
   baseSmtMultiStackPtr=dynamic_cast<BaseSmtMultiStack<Hypothesis>*>(stack_ptr);
+  if(baseSmtMultiStackPtr)
+    baseSmtMultiStackPtr->set_bf(breadthFirst);
 }
 
 //---------------------------------------
-- 
2.43.0


From 504366f846ea9ed63ae38fe7ebed9654d6301719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 015/115] fix: socket strings are received whole, and closed
 connections and invalid lengths are reported

---
 src/nlp_common/BasicSocketUtils.cc | 66 +++++++++++++++---------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/nlp_common/BasicSocketUtils.cc b/src/nlp_common/BasicSocketUtils.cc
index e5cb7cc..e4f18de 100644
--- a/src/nlp_common/BasicSocketUtils.cc
+++ b/src/nlp_common/BasicSocketUtils.cc
@@ -43,20 +43,34 @@ namespace BasicSocketUtils
   }
 
   //---------------
-  int recvStr(int s,char *str)
+  void recvAll(int s,char *buf,size_t numbytes)
   {
-    int  numbytes;
-
-    numbytes=recvInt(s);
-    if(numbytes>0)
+        // A call to recv() may return only part of the data
+    while(numbytes>0)
     {
-      if ((numbytes=recv(s,str,numbytes,0)) == -1)
+      ssize_t ret=recv(s,buf,numbytes,0);
+      if(ret==-1)
       {
-            // recv() call
+        if(errno==EINTR) continue;
         std::cerr<<"recv() error!"<<std::endl;
-        throw std::runtime_error("Socket error: Cannot read string");
+        throw std::runtime_error("Socket error: Cannot read data");
       }
+      if(ret==0)
+        throw std::runtime_error("Socket error: Connection closed while reading data");
+      buf+=ret;
+      numbytes-=ret;
     }
+  }
+
+  //---------------
+  int recvStr(int s,char *str)
+  {
+    int  numbytes;
+
+    numbytes=recvInt(s);
+    if(numbytes<0)
+      throw std::runtime_error("Socket error: Invalid string length");
+    recvAll(s,str,numbytes);
     str[numbytes] = '\0';
     return numbytes;
   }
@@ -65,42 +79,30 @@ namespace BasicSocketUtils
   int recvStlStr(int s,std::string& stlstr)
   {
     int  numbytes;
-    char* str=NULL;
 
     numbytes=recvInt(s);
-    str=(char*) mem_alloc_utils::my_realloc(str,(numbytes+1)*sizeof(char));
-    if(numbytes>0)
+    if(numbytes<0)
+      throw std::runtime_error("Socket error: Invalid string length");
+    stlstr.clear();
+    while(stlstr.size()<(size_t)numbytes)
     {
-      if ((numbytes=recv(s,str,numbytes,0)) == -1)
-      {
-            // recv() call
-        std::cerr<<"recv() error!"<<std::endl;
-        free(str);
-        throw std::runtime_error("Socket error: Cannot read STL string");
-      }
+          // The announced length is not trusted to allocate memory
+      char buff[4096];
+      size_t chunk=numbytes-stlstr.size();
+      if(chunk>sizeof(buff)) chunk=sizeof(buff);
+      recvAll(s,buff,chunk);
+      stlstr.append(buff,chunk);
     }
-    str[numbytes] = '\0';
-    stlstr=str;
-    free(str);
     return numbytes;
   }
 
   //---------------
   int recvInt(int s)
   {
-    int numbytes;
     int receivedInt;
 
-    if ((numbytes=recv(s,(char*)&receivedInt,sizeof(int),0)) == -1)
-    {
-          // recv() call
-      std::cerr<<"recv() error!"<<std::endl;
-      throw std::runtime_error("Socket error: Cannot read integer");
-    }
-    else
-    {
-      receivedInt=ntohl(receivedInt);
-    }
+    recvAll(s,(char*)&receivedInt,sizeof(int));
+    receivedInt=ntohl(receivedInt);
     return receivedInt;
   }
 
-- 
2.43.0


From 6dbfd9c73dc80c7618441febcf8447562c654799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 016/115] fix: socket data are sent whole and write errors are
 reported

---
 src/nlp_common/BasicSocketUtils.cc | 39 +++++++++++++++++-------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/nlp_common/BasicSocketUtils.cc b/src/nlp_common/BasicSocketUtils.cc
index e4f18de..21db03b 100644
--- a/src/nlp_common/BasicSocketUtils.cc
+++ b/src/nlp_common/BasicSocketUtils.cc
@@ -126,17 +126,29 @@ namespace BasicSocketUtils
   }
 
   //--------------------------
-  int writeInt(int fd,int i)
+  void writeAll(int fd,const char *buf,size_t numbytes)
   {
-    int ret;
-
-    i=htonl(i);
-    if((ret=write(fd,(char*) &i,sizeof(i)))==-1)
+        // A call to write() may send only part of the data
+    while(numbytes>0)
     {
-      std::cerr<<"write() error"<<std::endl;
-      throw std::runtime_error("Socket error: Cannot write integer");
+      ssize_t ret=write(fd,buf,numbytes);
+      if(ret==-1)
+      {
+        if(errno==EINTR) continue;
+        std::cerr<<"write() error"<<std::endl;
+        throw std::runtime_error("Socket error: Cannot write data");
+      }
+      buf+=ret;
+      numbytes-=ret;
     }
-    return ret;
+  }
+
+  //--------------------------
+  int writeInt(int fd,int i)
+  {
+    i=htonl(i);
+    writeAll(fd,(char*) &i,sizeof(i));
+    return sizeof(i);
   }
   //--------------------------
   int writeStr(int fd,const char* s)
@@ -146,15 +158,8 @@ namespace BasicSocketUtils
 
     numbytes=strlen(s);
     ret+=writeInt(fd,numbytes);
-    if(numbytes>0)
-    {
-     if((ret+=write(fd,(char*) s,numbytes))==-1)
-     {
-       std::cerr<<"write() error"<<std::endl;
-       throw std::runtime_error("Socket error: Cannot write string");
-     }
-    }
-    return ret;
+    writeAll(fd,s,numbytes);
+    return ret+numbytes;
   }
 
   //---------------
-- 
2.43.0


From 2e605bc59b545264e78ce756d05d4fddc85dd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:40 +0000
Subject: [PATCH 017/115] fix: WgProcessorForAnlp compared prefix words after
 the first difference, so predictions depended on earlier prefixes

---
 src/error_correction/WgProcessorForAnlp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index d26e9c5..bde5faf 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -476,8 +476,8 @@ WgProcessorForAnlp<ECM_FOR_WG>::getValidProcPrefixVec(const std::vector<std::str
   for(unsigned int i=0;i<previousPrefixVec.size();++i)
   {
     if(i>=prefixVec.size()) break;
-    if(previousPrefixVec[i]==prefixVec[i])
-      result.push_back(previousPrefixVec[i]);
+    if(previousPrefixVec[i]!=prefixVec[i]) break;
+    result.push_back(previousPrefixVec[i]);
   }
   return result;
 }
-- 
2.43.0


From c51b9e31c976d1e75006ed61b0e65112a1a116af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:40 +0000
Subject: [PATCH 018/115] fix: an interactive session used the decoder's word
 graph after other requests had replaced it

---
 src/stack_dec/WgUncoupledAssistedTrans.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/stack_dec/WgUncoupledAssistedTrans.h b/src/stack_dec/WgUncoupledAssistedTrans.h
index 6ff1c84..942a994 100644
--- a/src/stack_dec/WgUncoupledAssistedTrans.h
+++ b/src/stack_dec/WgUncoupledAssistedTrans.h
@@ -109,9 +109,7 @@ class WgUncoupledAssistedTrans: public _assistedTrans<SMT_MODEL>
   BaseWgProcessorForAnlp* wgp_ptr;  // Pointer to a word-graph
                                     // processor
 
-  WordGraph* wg_ptr;  // Pointer to word-graph. It is required only when
-                      // the word-graph is obtained from the word-graph
-                      // handler
+  WordGraph* wg_ptr;  // Pointer to the word-graph being used
   
   WgHandler* wgh_ptr; // Pointer to a word-graph handler
   
@@ -335,7 +333,11 @@ WgUncoupledAssistedTrans<SMT_MODEL>::obtainWgUsingTranslator(std::string s,
       // Set flag
   completeHypReachable=smtm_ptr->isComplete(hyp);
   
-  return sdr_ptr->getWordGraphPtr();
+      // Copy word-graph, since the one owned by the decoder is replaced
+      // whenever the decoder is used again
+  *wg_ptr=*sdr_ptr->getWordGraphPtr();
+
+  return wg_ptr;
 }
 
 //---------------------------------
-- 
2.43.0


From 026c72b36541c1afd8450312c555fccddd5280dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:40 +0000
Subject: [PATCH 019/115] fix: data race on the first call of ctimer

---
 src/nlp_common/ctimer.c | 5 +++++
 src/nlp_common/ctimer.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/nlp_common/ctimer.c b/src/nlp_common/ctimer.c
index af50f91..bfc5bc3 100644
--- a/src/nlp_common/ctimer.c
+++ b/src/nlp_common/ctimer.c
@@ -20,6 +20,9 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 #include "ctimer.h"
 
 static double firstcall;
+#ifndef THOT_MINGW
+static pthread_mutex_t firstcall_mut=PTHREAD_MUTEX_INITIALIZER;
+#endif
 
 /**
  *
@@ -53,6 +56,7 @@ void ctimer(double *elapsed, double *ucpu, double *scpu)
 
   usegs = tm.tv_usec+tm.tv_sec*1E6;
 
+  pthread_mutex_lock(&firstcall_mut);
   if (firstcall)
   {
     *elapsed = usegs - firstcall;
@@ -62,6 +66,7 @@ void ctimer(double *elapsed, double *ucpu, double *scpu)
     *elapsed = 0;
     firstcall = usegs;
   }
+  pthread_mutex_unlock(&firstcall_mut);
 
   *elapsed = *elapsed/1E6;
   *ucpu = (double)sistema.tms_utime/(double)CLOCKS_PER_SEC*1E4;
diff --git a/src/nlp_common/ctimer.h b/src/nlp_common/ctimer.h
index 866483e..af76ab7 100644
--- a/src/nlp_common/ctimer.h
+++ b/src/nlp_common/ctimer.h
@@ -43,6 +43,7 @@ extern "C"
 
 #ifndef THOT_MINGW
 #include <sys/times.h>
+#include <pthread.h>
 #endif
   
 #include <unistd.h>
-- 
2.43.0


From 5f791ae6bb03559a1b5079b4fee7645c5a8a001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:40 +0000
Subject: [PATCH 020/115] fix: the translation of a sentence with blanks only
 read the first word of an empty vector

---
 src/stack_dec/TranslationMetadata.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/TranslationMetadata.h b/src/stack_dec/TranslationMetadata.h
index 7525073..9ee50e0 100644
--- a/src/stack_dec/TranslationMetadata.h
+++ b/src/stack_dec/TranslationMetadata.h
@@ -150,8 +150,9 @@ void TranslationMetadata<SCORE_INFO>::obtainTransConstraints(std::string rawSrcS
         // Convert raw source sentence into a string vector
     std::vector<std::string> tokRawSrcSentVec=StrProcUtils::stringToStringVector(tokRawSrcSent);
 
-        // Scan string vector
-    bool end=false;
+        // Scan string vector (it has no words if the sentence only
+        // contains blanks)
+    bool end=tokRawSrcSentVec.empty();
     unsigned int i=0;
     std::vector<std::string> srcPhrase;
     std::vector<std::string> trgPhrase;
-- 
2.43.0


From 6107d469f1e65ef3e109c4c9381472ad0e327a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 021/115] fix: initUserPars kept its locks when loading case
 conversion information failed

---
 src/stack_dec/ThotDecoder.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 6f4b76d..5b27399 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -1063,10 +1063,10 @@ int ThotDecoder::initUserPars(int user_id,
       // Load preproc. info if requested
   if(tdup.sp && tdup.uc_str!="")
     ret=use_caseconv(user_id,tdup.uc_str.c_str(),verbose);
-  if(ret==THOT_ERROR) return THOT_ERROR;
 
       // Set cat weights
-  set_catw(user_id,tdup.catWeightsVec,verbose);
+  if(ret!=THOT_ERROR)
+    set_catw(user_id,tdup.catWeightsVec,verbose);
 
       // Unlock non_atomic_op_cond mutex
   pthread_mutex_unlock(&non_atomic_op_mut);
@@ -1074,7 +1074,8 @@ int ThotDecoder::initUserPars(int user_id,
   /////////// end of mutex 
   pthread_mutex_unlock(&atomic_op_mut);
 
-  return THOT_OK;
+  if(ret==THOT_ERROR) return THOT_ERROR;
+  else return THOT_OK;
 }
 
 //--------------------------
-- 
2.43.0


From 134606b1a516d8dc5581d5f3ebbed843baddec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 022/115] fix: models were printed while translations were
 using them

---
 src/stack_dec/ThotDecoder.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 5b27399..4217b53 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -2711,6 +2711,9 @@ int ThotDecoder::printModelsFeatImpl(int verbose/*=0*/)
   pthread_mutex_lock(&atomic_op_mut);
   /////////// begin of mutex 
 
+      // Wait until all non-atomic operations have finished
+  wait_on_non_atomic_op_cond();
+
   if(verbose)
   {
     StdCerrThreadSafeCond(printTid)<<"Printing models stored by the system (tm files prefix: "<<tdState.tmFilesPrefixGiven<<" , lm files prefix: "<<tdState.lmfileLoaded<<" , ecm files prefix: "<<tdState.ecmFilesPrefixGiven<<")"<<std::endl;
@@ -2727,6 +2730,9 @@ int ThotDecoder::printModelsFeatImpl(int verbose/*=0*/)
     ret=tdCommonVars.ecModelPtr->print(tdState.ecmFilesPrefixGiven.c_str());
   }
 
+      // Unlock non_atomic_op_cond mutex
+  pthread_mutex_unlock(&non_atomic_op_mut);
+
   /////////// end of mutex 
   pthread_mutex_unlock(&atomic_op_mut);
 
@@ -2741,6 +2747,9 @@ int ThotDecoder::printModelsLegacyImpl(int verbose/*=0*/)
   pthread_mutex_lock(&atomic_op_mut);
   /////////// begin of mutex 
 
+      // Wait until all non-atomic operations have finished
+  wait_on_non_atomic_op_cond();
+
   if(verbose)
   {
     StdCerrThreadSafeCond(printTid)<<"Printing models stored by the system (tm files prefix: "<<tdState.tmFilesPrefixGiven<<" , lm files prefix: "<<tdState.lmfileLoaded<<" , ecm files prefix: "<<tdState.ecmFilesPrefixGiven<<")"<<std::endl;
@@ -2766,6 +2775,9 @@ int ThotDecoder::printModelsLegacyImpl(int verbose/*=0*/)
   else
     ret=THOT_ERROR;
   
+      // Unlock non_atomic_op_cond mutex
+  pthread_mutex_unlock(&non_atomic_op_mut);
+
   /////////// end of mutex 
   pthread_mutex_unlock(&atomic_op_mut);
 
-- 
2.43.0


From b46ee76aa0ae875e45d349014f27061e4c2a7dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 023/115] fix: END cleared the models while previous requests
 used them, and left its mutex locked

---
 src/stack_dec/thot_server.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index 6231ac6..8429e86 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -276,8 +276,14 @@ int start_server(void)
 
         // Check if server should be finished
     if(request_type==END_SERVER)
+    {
       end_server=true;
-      
+
+          // Wait for previous requests to finish, since the models they
+          // use will be cleared
+      wait_on_num_threads_var_cond();
+    }
+
         // Obtain user identifier
     int user_id;
     ret=get_user_id(new_fd,user_id);
@@ -544,11 +550,12 @@ int init_user_pars_if_required(int user_id)
   {
         // User is new
 
-        // Store user
-    user_set.insert(user_id);
-
         // Initialize parameters
     ret=thotDecoderPtr->initUserPars(user_id,tdu_pars,ts_pars.v_given);
+
+        // Store user
+    if(ret!=THOT_ERROR)
+      user_set.insert(user_id);
   }
   return ret;
 }
@@ -599,10 +606,8 @@ void wait_on_num_threads_var_cond(void)
         // owned by the calling thread.
   }
 
-      // NOTE: num_threads_var_mut mutex is intentionally kept locked at
-      // the end of this function, preventing execution of new server
-      // request threads (however, with current implementation this is
-      // no longer possible)
+  /////////// end of mutex 
+  pthread_mutex_unlock(&num_threads_var_mut);
 }
 
 //---------------
-- 
2.43.0


From bd2fc44e0ebe9c61638274f430fa09d19c59d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 024/115] fix: WgProcessorForAnlp reused what was computed for
 an incomplete last word when the word became complete

---
 src/error_correction/WgProcessorForAnlp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index bde5faf..c0787a7 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -477,6 +477,9 @@ WgProcessorForAnlp<ECM_FOR_WG>::getValidProcPrefixVec(const std::vector<std::str
   {
     if(i>=prefixVec.size()) break;
     if(previousPrefixVec[i]!=prefixVec[i]) break;
+        // The last word of a prefix is processed differently, since it may
+        // be incomplete
+    if((i+1==previousPrefixVec.size())!=(i+1==prefixVec.size())) break;
     result.push_back(previousPrefixVec[i]);
   }
   return result;
-- 
2.43.0


From 93a9bcfa71b8f687b52e3437c922906a8f8f7cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 025/115] fix: pruning counted the score of the initial state
 twice, so arcs above the threshold were removed, even those of the best path

---
 src/error_correction/WordGraph.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 2ddf88c..3f2076f 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1100,12 +1100,16 @@ unsigned int WordGraph::pruneArcsToPredStates(float threshold)
       HypStateIndex predStateIndex=wordGraphArcs[wordGraphArcId].predStateIndex;
       HypStateIndex succStateIndex=wordGraphArcs[wordGraphArcId].succStateIndex;
       Score arcScore=wordGraphArcs[wordGraphArcId].arcScore;
-      Score bestScoreAssociatedToArc=prevScores[predStateIndex]+arcScore+restScores[succStateIndex];
+          // (the score of the initial state is included in both the previous
+          // and the rest scores)
+      Score bestScoreAssociatedToArc=prevScores[predStateIndex]+arcScore+restScores[succStateIndex]-initialStateScore;
       // std::cerr<<predStateIndex<<" -> "<<succStateIndex<<" , "<<prevScores[predStateIndex]<<" ";
       // std::cerr<<arcScore<<" "<<restScores[succStateIndex]<<" , "<<bestScoreAssociatedToArc<<" , "<<bestHypScore<<" "<<bestHypScore+logThreshold<<std::endl;
 
           // Decide if the arc has to be pruned
-      if(bestScoreAssociatedToArc<bestHypScore+logThreshold)
+          // (the tolerance prevents rounding errors from pruning the
+          // best path)
+      if(bestScoreAssociatedToArc<bestHypScore+logThreshold-1e-10*fabs(bestHypScore))
       {
         arcsPruned[wordGraphArcId]=true;
         ++numPrunedArcs;
-- 
2.43.0


From 56234bd8637f663011fd3b1a1100b67d0b39a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 026/115] fix: the best path of a word graph without arcs was
 looked for in an empty vector

---
 src/error_correction/WordGraph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 3f2076f..62909b4 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1020,7 +1020,8 @@ Score WordGraph::bestPathFromFinalStateToIdxAux(HypStateIndex hypStateIndex,
       // Obtain best final state
   for(FinalStateSet::iterator fssIter=finalStateSet.begin();fssIter!=finalStateSet.end();++fssIter)
   {
-    if(bestFinalStateScore<prevScores[*fssIter])
+        // Final states without arcs have no previous score
+    if(*fssIter<prevScores.size() && bestFinalStateScore<prevScores[*fssIter])
     {
       bestFinalState=*fssIter;
       bestFinalStateScore=prevScores[*fssIter];
-- 
2.43.0


From 095ca7db3aacd22a03cbf4bc627c0cafcfec0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 027/115] fix: states reached only through excluded arcs were
 treated as reachable, and the best path followed arcs never set

---
 src/error_correction/WordGraph.cc | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 62909b4..c36c60d 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -863,8 +863,8 @@ void WordGraph::calcPrevScoresWeights(HypStateIndex hypStateIndex,
 
     for(WordGraphArcId wgArcId=wgArcIdPair.first;wgArcId<=wgArcIdPair.second;++wgArcId)
     {
-          // Check if arc has not been pruned
-      if(!arcPruned(wgArcId))
+          // Check if arc has not been pruned nor excluded
+      if(!arcPruned(wgArcId) && excludedArcs.find(wgArcId)==excludedArcs.end())
       {
         WordGraphArc wordGraphArc=wordGraphArcId2WordGraphArc(wgArcId);
 
@@ -883,16 +883,6 @@ void WordGraph::calcPrevScoresWeights(HypStateIndex hypStateIndex,
         
               // Update score
           Score score=arcScore+prevScores[wordGraphArc.predStateIndex];
-          if(!excludedArcs.empty())
-          {
-                // If predecessor state is the initial state, check that the
-                // first word is not contained in the set of rejected words
-            std::set<WordGraphArcId>::const_iterator wgArcIdSetIter;
-            wgArcIdSetIter=excludedArcs.find(wgArcId);
-            if(wgArcIdSetIter!=excludedArcs.end())
-              score=SMALL_SCORE;
-          }
-        
           if(score<SMALL_SCORE) score=SMALL_SCORE;
           if(score>prevScores[wordGraphArc.succStateIndex])
           {
-- 
2.43.0


From c14f84176ecd5ddaaa16a44acc0fa36935455cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 028/115] fix: ordering the arcs of a word graph left their
 components, pruning marks and adjacency lists in the old order

---
 src/error_correction/WordGraph.cc | 33 +++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index c36c60d..4ca1a1c 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -717,7 +717,7 @@ void WordGraph::obtainWgComposedOfUsefulStates(void)
 void WordGraph::orderArcsTopol(void)
 {
       // Define auxiliary variables
-  WordGraphArcs wordGraphArcsAux;
+  std::vector<WordGraphArcId> orderedArcIds;
 
   std::vector<bool> arcAdded;
   arcAdded.insert(arcAdded.begin(),wordGraphArcs.size(),false);
@@ -726,7 +726,7 @@ void WordGraph::orderArcsTopol(void)
   stateClosed.insert(stateClosed.begin(),wordGraphStates.size(),false);
   
       // Repeat until all arcs has been reintroduced
-  while(wordGraphArcsAux.size()<wordGraphArcs.size())
+  while(orderedArcIds.size()<wordGraphArcs.size())
   {
     unsigned int atLeastOneArcAdded=false;
 
@@ -772,7 +772,7 @@ void WordGraph::orderArcsTopol(void)
               // Update atLeastOneArcAdded flag
           atLeastOneArcAdded=true;
               // Add arc
-          wordGraphArcsAux.push_back(wgArc);
+          orderedArcIds.push_back(wgArcId);
               // Mark arc as added
           arcAdded[wgArcId]=true;
               // Close state
@@ -790,10 +790,31 @@ void WordGraph::orderArcsTopol(void)
     }
   }
       // Check if new arc ordering has been successfully obtained
-  if(wordGraphArcsAux.size()==wordGraphArcs.size())
+  if(orderedArcIds.size()==wordGraphArcs.size())
   {
-        // Replace wordGraphArcs with wordGraphArcsAux
-    wordGraphArcs=wordGraphArcsAux;
+        // Reintroduce the arcs in the new order (the information
+        // associated to each arc should be moved with it)
+    WordGraphArcs wordGraphArcsAux=wordGraphArcs;
+    std::vector<bool> arcsPrunedAux=arcsPruned;
+    std::vector<std::vector<Score> > scrCompsVecAux=scrCompsVec;
+    wordGraphArcs.clear();
+    arcsPruned.clear();
+    scrCompsVec.clear();
+    for(unsigned int i=0;i<wordGraphStates.size();++i)
+    {
+      wordGraphStates[i].arcsToPredStates.clear();
+      wordGraphStates[i].arcsToSuccStates.clear();
+    }
+    for(unsigned int i=0;i<orderedArcIds.size();++i)
+    {
+      const WordGraphArc& wgArc=wordGraphArcsAux[orderedArcIds[i]];
+      addArcWithScrComps(wgArc.predStateIndex,
+                         wgArc.succStateIndex,
+                         wgArc.words,
+                         wgArc.arcScore,
+                         scrCompsVecAux[orderedArcIds[i]]);
+      arcsPruned[i]=arcsPrunedAux[orderedArcIds[i]];
+    }
   }
 
 }
-- 
2.43.0


From b334ca79e1c4050857a3b9d55f71992b244cb66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 029/115] fix: final states that the initial one does not reach
 were taken as useful, and could become the initial state

---
 src/error_correction/WordGraph.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 4ca1a1c..b768e0c 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1187,6 +1187,10 @@ void WordGraph::obtainUsefulStates(std::vector<bool>& stateIsUsefulVec,
   for(unsigned int i=0;i<wordGraphStates.size();++i)
     stateIsUsefulVec.push_back(false);
 
+      // Obtain boolean vector of states reachable from initial node
+  std::vector<bool> stateReachableFromInitVec;
+  obtainStatesReachableFromInit(stateReachableFromInitVec);
+  
       // Set vector values for final states
   FinalStateSet::const_iterator fssIter;
   for(fssIter=finalStateSet.begin();fssIter!=finalStateSet.end();++fssIter)
@@ -1206,16 +1210,12 @@ void WordGraph::obtainUsefulStates(std::vector<bool>& stateIsUsefulVec,
         break;
       }
     }
-        // If at least one arc arrives to the final state, mark it as
-        // a useful one
-    if(atLeastOneArcArrivesToState)
+        // If at least one arc arrives to the final state and the state
+        // can be reached from the initial one, mark it as a useful one
+    if(atLeastOneArcArrivesToState && stateReachableFromInitVec[*fssIter])
       stateIsUsefulVec[*fssIter]=true;
   }
 
-      // Obtain boolean vector of states reachable from initial node
-  std::vector<bool> stateReachableFromInitVec;
-  obtainStatesReachableFromInit(stateReachableFromInitVec);
-  
       // Reverse iteration over the arcs (arcs are assumed to be
       // topologically ordered)
   for(WordGraphArcId wgArcId=0;wgArcId<wordGraphArcs.size();++wgArcId)
-- 
2.43.0


From 17a6aa23013041070ecb6963fc2a8b9b1966b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 030/115] fix: an arc whose predecessor state was not known yet
 was recorded out of bounds

---
 src/error_correction/WordGraph.cc | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index b768e0c..18395c6 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -93,28 +93,14 @@ void WordGraph::addArc(HypStateIndex predStateIndex,
       // Register arc as not selected for pruning
   arcsPruned.push_back(false);
   
-      // Add the new arc   
-  if(succStateIndex<wordGraphStates.size())
-  {
-        // Add arc to predecessor and succesor states
-    wordGraphStates[predStateIndex].arcsToSuccStates.push_back(wordGraphArcId);
-    wordGraphStates[succStateIndex].arcsToPredStates.push_back(wordGraphArcId);
-  }
-  else
-  {
-        // There were not any arcs to the successor state
-    WordGraphStateData wordGraphStateData;
-
-        // Add the required number of empty elements to wordGraphStates
-    while(succStateIndex>=wordGraphStates.size())
-      wordGraphStates.push_back(wordGraphStateData);
-
-        // Add arc to succesor state
-    wordGraphStates[predStateIndex].arcsToSuccStates.push_back(wordGraphArcId);
-
-        // Add arc to predecessor state
-    wordGraphStates[succStateIndex].arcsToPredStates.push_back(wordGraphArcId);
-  }
+      // Add the required number of empty elements to wordGraphStates
+  WordGraphStateData wordGraphStateData;
+  while(succStateIndex>=wordGraphStates.size() || predStateIndex>=wordGraphStates.size())
+    wordGraphStates.push_back(wordGraphStateData);
+
+      // Add arc to predecessor and succesor states
+  wordGraphStates[predStateIndex].arcsToSuccStates.push_back(wordGraphArcId);
+  wordGraphStates[succStateIndex].arcsToPredStates.push_back(wordGraphArcId);
 
       // Add empty score vector
   std::vector<Score> emptyScrVec;
-- 
2.43.0


From 8baefd3690d650f6dfa9d8aa47b7644230b31ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 031/115] fix: the decoder left the arcs of its word graph out
 of topological order, and the best path of the graph could be missed

---
 src/stack_dec/_stackDecoderRec.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stack_dec/_stackDecoderRec.h b/src/stack_dec/_stackDecoderRec.h
index 59a0acc..92f9092 100644
--- a/src/stack_dec/_stackDecoderRec.h
+++ b/src/stack_dec/_stackDecoderRec.h
@@ -236,6 +236,11 @@ void _stackDecoderRec<SMT_MODEL>::post_trans_actions(const Hypothesis& result)
     HypStateIndex stateIdx=getHypStateIndex(result,existIndex);
     wordGraphPtr->addFinalState(stateIdx);
   }
+
+      // A state may receive new arcs after being expanded, but the word
+      // graph algorithms require the arcs to be topologically ordered
+  if(wordGraphEnabled)
+    wordGraphPtr->orderArcsTopol();
 }
 
 //---------------------------------------
-- 
2.43.0


From e062fa1ca8df1d2f7b525b183fd60d2097290afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 032/115] fix: only the state of the last language model was
 kept in the decoder's hypotheses, so those with a different future were
 recombined

---
 src/stack_dec/LangModelFeat.cc | 12 ++++++++----
 src/stack_dec/PbTransModel.h   |  5 +++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/stack_dec/LangModelFeat.cc b/src/stack_dec/LangModelFeat.cc
index 3e3f817..76239ca 100644
--- a/src/stack_dec/LangModelFeat.cc
+++ b/src/stack_dec/LangModelFeat.cc
@@ -36,9 +36,12 @@ LangModelFeat<PhrScoreInfo>::nullHypScore(const HypScoreInfo& predHypScrInf,
 {
   unweightedScore=0;
 
-      // Obtain language model state for null hypothesis
+      // Add language model state for null hypothesis (the states of all
+      // of the language models form the history of the hypothesis)
   HypScoreInfo hypScrInf=predHypScrInf;
-  lModelPtr->getStateForBeginOfSentence(hypScrInf.lmHist);
+  LM_State state;
+  lModelPtr->getStateForBeginOfSentence(state);
+  hypScrInf.lmHist.insert(hypScrInf.lmHist.end(),state.begin(),state.end());
   
   return hypScrInf;
 }
@@ -97,8 +100,9 @@ LangModelFeat<PhrScoreInfo>::extensionScore(const std::vector<std::string>& srcS
     currPartialTrans.push_back(EOS_STR);
   }
 
-      // Set language model history for hypothesis
-  hypScrInf.lmHist=state;
+      // Add language model state to the history of the hypothesis (the
+      // states of all of the language models form such history)
+  hypScrInf.lmHist.insert(hypScrInf.lmHist.end(),state.begin(),state.end());
   
   return hypScrInf;
 }
diff --git a/src/stack_dec/PbTransModel.h b/src/stack_dec/PbTransModel.h
index d0805fe..6b1f440 100644
--- a/src/stack_dec/PbTransModel.h
+++ b/src/stack_dec/PbTransModel.h
@@ -130,6 +130,7 @@ Score PbTransModel<EQCLASS_FUNC>::nullHypothesisScrComps(Hypothesis& nullHyp,
 
       // Init scoreInfo
   hypScoreInfo.score=0;
+  hypScoreInfo.lmHist.clear();
 
       // Init scoreComponents
   scoreComponents.clear();
@@ -263,6 +264,10 @@ Score PbTransModel<EQCLASS_FUNC>::incrScore(const Hypothesis& pred_hyp,
   PhrHypDataStr pred_hypd_str=phypd_to_phypdstr(pred_hypd);
   PhrHypDataStr new_hypd_str=phypd_to_phypdstr(new_hypd);
 
+      // Clear language model history, each language model feature adds
+      // its state to it
+  hypScoreInfo.lmHist.clear();
+
       // Init scoreComponents
   scoreComponents.clear();
 
-- 
2.43.0


From 6a136b3edd5a8b71e87b45cfeadcabadbe7ef8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 033/115] fix: close the file the phrase table is printed to

---
 src/phrase_models/_incrPhraseModel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/phrase_models/_incrPhraseModel.cc b/src/phrase_models/_incrPhraseModel.cc
index 8eddacd..d3ef780 100644
--- a/src/phrase_models/_incrPhraseModel.cc
+++ b/src/phrase_models/_incrPhraseModel.cc
@@ -448,6 +448,7 @@ bool _incrPhraseModel::printTTable(const char *outputFileName)
   else
   {
     printTTable(outf);
+    fclose(outf);
     return THOT_OK;
   }
 }
-- 
2.43.0


From fa4f19e3adb3d828dedfa856dd0f31f223fff2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 034/115] fix: no phrase pair without source words from an
 empty source sentence

---
 src/phrase_models/PhraseExtractionTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/PhraseExtractionTable.cc b/src/phrase_models/PhraseExtractionTable.cc
index 546861d..9e48a33 100644
--- a/src/phrase_models/PhraseExtractionTable.cc
+++ b/src/phrase_models/PhraseExtractionTable.cc
@@ -1002,7 +1002,7 @@ bool PhraseExtractionTable::validCoverageForCell(Bitset<MAX_SENTENCE_LENGTH>& c,
      if(c.test(i)==0) return false;
      else ++numAlig;
    }
-   if(numAlig>maxSrcPhraseLength) return false;
+   if(numAlig==0 || numAlig>maxSrcPhraseLength) return false;
  }
  else
  { //Obtain leftmost source (e) position covered	  
-- 
2.43.0


From c1bb103ff7cba7341a5deed81149f00c0b06af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:15 +0000
Subject: [PATCH 035/115] fix: thot_alig_op transposes the alignments given
 with -gt

---
 src/phrase_models/AlignmentContainer.cc |  4 ++++
 src/phrase_models/AlignmentContainer.h  |  1 +
 src/phrase_models/thot_alig_op.cc       | 31 ++++++++++++++++++++++++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/phrase_models/AlignmentContainer.cc b/src/phrase_models/AlignmentContainer.cc
index bcd891b..efd4492 100644
--- a/src/phrase_models/AlignmentContainer.cc
+++ b/src/phrase_models/AlignmentContainer.cc
@@ -34,6 +34,7 @@ AlignmentContainer::AlignmentContainer(void)
 {
  numAlignments=0;	
  GizaAligFileName[0]=0;	
+ transposed=false;
 }
 
 //-------------------------
@@ -60,6 +61,7 @@ bool AlignmentContainer::extractAlignmentsFromGIZAFile(const char *_GizaAligFile
  else
  {
    sprintf(GizaAligFileName,"%s",_GizaAligFileName);
+   transposed=transpose;
 	   
    while(alignmentExtractor.getNextAlignment())
    {
@@ -379,6 +381,7 @@ bool AlignmentContainer::printNoCompact(std::ostream &outS)
   {	   
     while(alignmentExtractor.getNextAlignment())
 	{
+      if(transposed) alignmentExtractor.transposeAlig();
       t=alignmentExtractor.get_t();
       ns=alignmentExtractor.get_ns();
       t_ui=vecString2VecUnsigInt(t,tVocab,tVocabInv);	
@@ -420,6 +423,7 @@ bool AlignmentContainer::printNoCompact(FILE *file)
   {	   
     while(alignmentExtractor.getNextAlignment())
 	{
+      if(transposed) alignmentExtractor.transposeAlig();
       t=alignmentExtractor.get_t();
       ns=alignmentExtractor.get_ns();
       t_ui=vecString2VecUnsigInt(t,tVocab,tVocabInv);	
diff --git a/src/phrase_models/AlignmentContainer.h b/src/phrase_models/AlignmentContainer.h
index e23dbd6..9fc25a2 100644
--- a/src/phrase_models/AlignmentContainer.h
+++ b/src/phrase_models/AlignmentContainer.h
@@ -96,6 +96,7 @@ class AlignmentContainer
 	std::vector<std::string> sVocabInv;
 	std::vector<std::string> tVocabInv;
     char GizaAligFileName[256];	
+    bool transposed;
 	unsigned long numAlignments;
 };
 
diff --git a/src/phrase_models/thot_alig_op.cc b/src/phrase_models/thot_alig_op.cc
index 7039efe..b8f4dc8 100644
--- a/src/phrase_models/thot_alig_op.cc
+++ b/src/phrase_models/thot_alig_op.cc
@@ -42,6 +42,8 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 
 //--------------- Function Declarations ------------------------------
 
+bool openAligFile(AlignmentExtractor& alignmentExtractor,
+                  bool transpose);
 FILE* gen_temp_file(void);
 void fileCopy (FILE* from, FILE *to);
 int TakeParameters(int argc,char *argv[]);
@@ -125,7 +127,7 @@ int main(int argc,char *argv[])
    }
    else // exhaustive option not given
    {
-     if(alExt.open(GizaAligFileName)==THOT_ERROR)
+     if(openAligFile(alExt,gtFlag)==THOT_ERROR)
      {
        return THOT_ERROR;
      }
@@ -337,6 +339,33 @@ bool parseAlignOpsFile(AlignmentExtractor& alignmentExtractor,
  }
 }
 
+//--------------- openAligFile function
+bool openAligFile(AlignmentExtractor& alignmentExtractor,
+                  bool transpose)
+{
+  if(alignmentExtractor.open(GizaAligFileName)==THOT_ERROR)
+    return THOT_ERROR;
+
+  if(transpose)
+  {
+        // Replace the alignments by the transposed ones, stored in a
+        // temporary file
+    FILE *tmp_file=gen_temp_file();
+    while(alignmentExtractor.getNextAlignment())
+    {
+      char header[256];
+      sprintf(header,"# %g",alignmentExtractor.get_numReps());
+      alignmentExtractor.transposeAlig();
+      printAlignmentInGIZAFormat(tmp_file,alignmentExtractor.get_ns(),alignmentExtractor.get_t(),
+                                 alignmentExtractor.get_wamatrix(),header);
+    }
+    fseek(tmp_file,0L,SEEK_SET);
+    alignmentExtractor.close();
+    return alignmentExtractor.open_stream(tmp_file);
+  }
+  else return THOT_OK;
+}
+
 //--------------- gen_temp_file function
 FILE* gen_temp_file(void)
 {
-- 
2.43.0


From f846484185443cfe68780267e8be398cc5ec3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 036/115] fix: thot_alig_op accepts file names of any length

---
 src/phrase_models/AlignmentContainer.cc |   7 +-
 src/phrase_models/AlignmentContainer.h  |   2 +-
 src/phrase_models/thot_alig_op.cc       | 102 ++++++++++++------------
 3 files changed, 55 insertions(+), 56 deletions(-)

diff --git a/src/phrase_models/AlignmentContainer.cc b/src/phrase_models/AlignmentContainer.cc
index efd4492..dc7d502 100644
--- a/src/phrase_models/AlignmentContainer.cc
+++ b/src/phrase_models/AlignmentContainer.cc
@@ -33,7 +33,6 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 AlignmentContainer::AlignmentContainer(void)
 {
  numAlignments=0;	
- GizaAligFileName[0]=0;	
  transposed=false;
 }
 
@@ -60,7 +59,7 @@ bool AlignmentContainer::extractAlignmentsFromGIZAFile(const char *_GizaAligFile
  }
  else
  {
-   sprintf(GizaAligFileName,"%s",_GizaAligFileName);
+   GizaAligFileName=_GizaAligFileName;
    transposed=transpose;
 	   
    while(alignmentExtractor.getNextAlignment())
@@ -373,7 +372,7 @@ bool AlignmentContainer::printNoCompact(std::ostream &outS)
   char cad[128];
   unsigned int numSent=0;
 	
-  if(alignmentExtractor.open(GizaAligFileName)==THOT_ERROR)
+  if(alignmentExtractor.open(GizaAligFileName.c_str())==THOT_ERROR)
   {
     return THOT_ERROR;
   }
@@ -415,7 +414,7 @@ bool AlignmentContainer::printNoCompact(FILE *file)
   char cad[128];
   unsigned int numSent=0;
 	
-  if(alignmentExtractor.open(GizaAligFileName)==THOT_ERROR)
+  if(alignmentExtractor.open(GizaAligFileName.c_str())==THOT_ERROR)
   {
     return THOT_ERROR;
   }
diff --git a/src/phrase_models/AlignmentContainer.h b/src/phrase_models/AlignmentContainer.h
index 9fc25a2..3b63cd7 100644
--- a/src/phrase_models/AlignmentContainer.h
+++ b/src/phrase_models/AlignmentContainer.h
@@ -95,7 +95,7 @@ class AlignmentContainer
 	std::map<std::string,unsigned int> tVocab;
 	std::vector<std::string> sVocabInv;
 	std::vector<std::string> tVocabInv;
-    char GizaAligFileName[256];	
+    std::string GizaAligFileName;
     bool transposed;
 	unsigned long numAlignments;
 };
diff --git a/src/phrase_models/thot_alig_op.cc b/src/phrase_models/thot_alig_op.cc
index b8f4dc8..eb054c3 100644
--- a/src/phrase_models/thot_alig_op.cc
+++ b/src/phrase_models/thot_alig_op.cc
@@ -48,10 +48,10 @@ FILE* gen_temp_file(void);
 void fileCopy (FILE* from, FILE *to);
 int TakeParameters(int argc,char *argv[]);
 bool parseAlignOpsFile(AlignmentContainer& alignmentContainer,
-                       char * alignOperationsFile,
+                       const char * alignOperationsFile,
                        bool verbose);
 bool parseAlignOpsFile(AlignmentExtractor& alignmentExtractor,
-                       char * alignOperationsFile,
+                       const char * alignOperationsFile,
                        bool verbose);
 void version(void);
 void printUsage(void);
@@ -62,10 +62,10 @@ void printDesc(void);
 
 //--------------- Global variables -----------------------------------
 
-char alignOperationsFile[256];
-char GizaAligFileName[256];
-char outputFilesPrefix[256];
-char GIZA_OpFileName[256];
+std::string alignOperationsFile;
+std::string GizaAligFileName;
+std::string outputFilesPrefix;
+std::string GIZA_OpFileName;
 int verbose,transposeFlag,gtFlag,exhaustive;
 bool compactOutput,andOp,orOp,sumOp,symmetr1Op,symmetr2Op,growDiagFinalOp;
 
@@ -75,7 +75,7 @@ bool compactOutput,andOp,orOp,sumOp,symmetr1Op,symmetr2Op,growDiagFinalOp;
 
 int main(int argc,char *argv[])
 {
- char outputFileName[256];	
+ std::string outputFileName;
  AlignmentContainer alignmentContainer;	
  AlignmentExtractor alExt;
  
@@ -83,31 +83,31 @@ int main(int argc,char *argv[])
  {
    if(exhaustive) // exhaustive option given
    {
-     if(alignmentContainer.extractAlignmentsFromGIZAFile(GizaAligFileName,gtFlag)==THOT_ERROR)
+     if(alignmentContainer.extractAlignmentsFromGIZAFile(GizaAligFileName.c_str(),gtFlag)==THOT_ERROR)
      {
        return THOT_ERROR;
      }
      else
      {
-       if(alignOperationsFile[0]!=0)
-         parseAlignOpsFile(alignmentContainer,alignOperationsFile,verbose);
+       if(!alignOperationsFile.empty())
+         parseAlignOpsFile(alignmentContainer,alignOperationsFile.c_str(),verbose);
        else
        {
-         if(andOp) alignmentContainer.intersect(GIZA_OpFileName,transposeFlag);
-         if(orOp) alignmentContainer.join(GIZA_OpFileName,transposeFlag);
-         if(sumOp) alignmentContainer.sum(GIZA_OpFileName,transposeFlag);
-         if(symmetr1Op) alignmentContainer.symmetr1(GIZA_OpFileName,transposeFlag);
-         if(symmetr2Op) alignmentContainer.symmetr2(GIZA_OpFileName,transposeFlag);	   
-         if(growDiagFinalOp) alignmentContainer.growDiagFinal(GIZA_OpFileName,transposeFlag);	   
+         if(andOp) alignmentContainer.intersect(GIZA_OpFileName.c_str(),transposeFlag);
+         if(orOp) alignmentContainer.join(GIZA_OpFileName.c_str(),transposeFlag);
+         if(sumOp) alignmentContainer.sum(GIZA_OpFileName.c_str(),transposeFlag);
+         if(symmetr1Op) alignmentContainer.symmetr1(GIZA_OpFileName.c_str(),transposeFlag);
+         if(symmetr2Op) alignmentContainer.symmetr2(GIZA_OpFileName.c_str(),transposeFlag);	   
+         if(growDiagFinalOp) alignmentContainer.growDiagFinal(GIZA_OpFileName.c_str(),transposeFlag);	   
        }
 
 #      ifdef _GLIBCXX_USE_LFS
        std::ofstream outF;
-       sprintf(outputFileName,"%s.A3.final",outputFilesPrefix); 
-       outF.open(outputFileName,std::ios::out);
+       outputFileName=outputFilesPrefix+".A3.final";
+       outF.open(outputFileName.c_str(),std::ios::out);
 #      else
        FILE *outF;
-       outF=fopen(outputFileName,"w");
+       outF=fopen(outputFileName.c_str(),"w");
 #      endif
        if(!compactOutput)
        {
@@ -133,18 +133,18 @@ int main(int argc,char *argv[])
      }
      else
      {
-       sprintf(outputFileName,"%s.A3.final",outputFilesPrefix); 
+       outputFileName=outputFilesPrefix+".A3.final";
        
-       if(alignOperationsFile[0]!=0)
-         return parseAlignOpsFile(alExt,alignOperationsFile,verbose);
+       if(!alignOperationsFile.empty())
+         return parseAlignOpsFile(alExt,alignOperationsFile.c_str(),verbose);
        else
        {
-         if(andOp) return alExt.intersect(GIZA_OpFileName,outputFileName,transposeFlag,verbose);
-         if(orOp) return alExt.join(GIZA_OpFileName,outputFileName,transposeFlag,verbose);
-         if(sumOp) return alExt.sum(GIZA_OpFileName,outputFileName,transposeFlag,verbose);
-         if(symmetr1Op) return alExt.symmetr1(GIZA_OpFileName,outputFileName,transposeFlag,verbose);
-         if(symmetr2Op) return alExt.symmetr2(GIZA_OpFileName,outputFileName,transposeFlag,verbose);	   
-         if(growDiagFinalOp) return alExt.growDiagFinal(GIZA_OpFileName,outputFileName,transposeFlag,verbose);	   
+         if(andOp) return alExt.intersect(GIZA_OpFileName.c_str(),outputFileName.c_str(),transposeFlag,verbose);
+         if(orOp) return alExt.join(GIZA_OpFileName.c_str(),outputFileName.c_str(),transposeFlag,verbose);
+         if(sumOp) return alExt.sum(GIZA_OpFileName.c_str(),outputFileName.c_str(),transposeFlag,verbose);
+         if(symmetr1Op) return alExt.symmetr1(GIZA_OpFileName.c_str(),outputFileName.c_str(),transposeFlag,verbose);
+         if(symmetr2Op) return alExt.symmetr2(GIZA_OpFileName.c_str(),outputFileName.c_str(),transposeFlag,verbose);	   
+         if(growDiagFinalOp) return alExt.growDiagFinal(GIZA_OpFileName.c_str(),outputFileName.c_str(),transposeFlag,verbose);	   
        }
        return THOT_OK;
      } 
@@ -156,7 +156,7 @@ int main(int argc,char *argv[])
 //--------------- parseAlignOpsFile function
 
 bool parseAlignOpsFile(AlignmentContainer& alignmentContainer,
-                       char * alignOperationsFile,
+                       const char * alignOperationsFile,
                        bool verbose)
 {
  AwkInputStream awk;
@@ -238,12 +238,12 @@ bool parseAlignOpsFile(AlignmentContainer& alignmentContainer,
 //--------------- parseAlignOpsFile overloaded function for AlignmentExtractor class
 
 bool parseAlignOpsFile(AlignmentExtractor& alignmentExtractor,
-                       char * alignOperationsFile,
+                       const char * alignOperationsFile,
                        bool verbose)
 {
  AwkInputStream awk;
  int transpose;
- char outputFileName[512];
+ std::string outputFileName;
  FILE *out_file=0;
  FILE *tmp_file=0;
  
@@ -254,7 +254,7 @@ bool parseAlignOpsFile(AlignmentExtractor& alignmentExtractor,
  else
  {
    unsigned int lineno=0;
-   sprintf(outputFileName,"%s.A3.final",outputFilesPrefix);
+   outputFileName=outputFilesPrefix+".A3.final";
    while(awk.getln())
    {
          // Process the lines of alignOperationsFile
@@ -268,37 +268,37 @@ bool parseAlignOpsFile(AlignmentExtractor& alignmentExtractor,
        {
          invalid_op=false;
          if(verbose) std::cerr<<"-and "<<awk.dollar(2).c_str()<<" "<<transpose<<std::endl;
-		 ret=alignmentExtractor.intersect((char*)awk.dollar(2).c_str(),outputFileName,transpose);
+		 ret=alignmentExtractor.intersect((char*)awk.dollar(2).c_str(),outputFileName.c_str(),transpose);
        }
        if(strcmp("-or",awk.dollar(1).c_str())==0)
        {
          invalid_op=false;
          if(verbose) std::cerr<<"-or "<<awk.dollar(2).c_str()<<" "<<transpose<<std::endl;
-		 ret=alignmentExtractor.join((char*)awk.dollar(2).c_str(),outputFileName,transpose);
+		 ret=alignmentExtractor.join((char*)awk.dollar(2).c_str(),outputFileName.c_str(),transpose);
        }
        if(strcmp("-sum",awk.dollar(1).c_str())==0)
        {
          invalid_op=false;
          if(verbose) std::cerr<<"-sum "<<awk.dollar(2).c_str()<<" "<<transpose<<std::endl;
-		 ret=alignmentExtractor.sum((char*)awk.dollar(2).c_str(),outputFileName,transpose);
+		 ret=alignmentExtractor.sum((char*)awk.dollar(2).c_str(),outputFileName.c_str(),transpose);
        }
        if(strcmp("-sym1",awk.dollar(1).c_str())==0)
        {
          invalid_op=false;
          if(verbose) std::cerr<<"-sym1 "<<awk.dollar(2).c_str()<<" "<<transpose<<std::endl;
-		 ret=alignmentExtractor.symmetr1((char*)awk.dollar(2).c_str(),outputFileName,transpose);
+		 ret=alignmentExtractor.symmetr1((char*)awk.dollar(2).c_str(),outputFileName.c_str(),transpose);
        }
        if(strcmp("-sym2",awk.dollar(1).c_str())==0)
        {
          invalid_op=false;
          if(verbose) std::cerr<<"-sym2 "<<awk.dollar(2).c_str()<<" "<<transpose<<std::endl;
-		 ret=alignmentExtractor.symmetr2((char*)awk.dollar(2).c_str(),outputFileName,transpose);
+		 ret=alignmentExtractor.symmetr2((char*)awk.dollar(2).c_str(),outputFileName.c_str(),transpose);
        }
        if(strcmp("-grd",awk.dollar(1).c_str())==0)
        {
          invalid_op=false;
          if(verbose) std::cerr<<"-grd "<<awk.dollar(2).c_str()<<" "<<transpose<<std::endl;
-		 ret=alignmentExtractor.growDiagFinal((char*)awk.dollar(2).c_str(),outputFileName,transpose);
+		 ret=alignmentExtractor.growDiagFinal((char*)awk.dollar(2).c_str(),outputFileName.c_str(),transpose);
        }
        if(ret==THOT_ERROR)
        {
@@ -310,7 +310,7 @@ bool parseAlignOpsFile(AlignmentExtractor& alignmentExtractor,
            // Close alignment extractor (this closes and removes the temporary file)
        alignmentExtractor.close();
            // Open output file
-       out_file=fopen(outputFileName,"r");
+       out_file=fopen(outputFileName.c_str(),"r");
        if(out_file==NULL)
        {
          std::cerr<<"Error: Output file "<<outputFileName<<" cannot be created."<<std::endl;
@@ -343,7 +343,7 @@ bool parseAlignOpsFile(AlignmentExtractor& alignmentExtractor,
 bool openAligFile(AlignmentExtractor& alignmentExtractor,
                   bool transpose)
 {
-  if(alignmentExtractor.open(GizaAligFileName)==THOT_ERROR)
+  if(alignmentExtractor.open(GizaAligFileName.c_str())==THOT_ERROR)
     return THOT_ERROR;
 
   if(transpose)
@@ -433,10 +433,10 @@ int TakeParameters(int argc,char *argv[])
 
  /* Takes the GIZA alignment file name */
  gtFlag=0;  
- err=readString(argc,argv, "-g", GizaAligFileName);
+ err=readSTLstring(argc,argv, "-g", &GizaAligFileName);
  if(err==-1)
  {
-   err=readString(argc,argv, "-gt", GizaAligFileName);
+   err=readSTLstring(argc,argv, "-gt", &GizaAligFileName);
    if(err==-1)   
    {
      printUsage();
@@ -446,14 +446,14 @@ int TakeParameters(int argc,char *argv[])
  }
 
  /* Takes the alignment-operations file name */
- err=readString(argc,argv, "-f", alignOperationsFile);
+ err=readSTLstring(argc,argv, "-f", &alignOperationsFile);
  if(err==-1)
  {
-   alignOperationsFile[0]=0;  
+   alignOperationsFile.clear();
  }
 
  /* Takes the output files prefix */
- err=readString(argc,argv, "-o", outputFilesPrefix);
+ err=readSTLstring(argc,argv, "-o", &outputFilesPrefix);
  if(err==-1)
  {
    printUsage();
@@ -461,21 +461,21 @@ int TakeParameters(int argc,char *argv[])
  }
  
  /* Verify -and option */
- err=readString(argc,argv, "-and", GIZA_OpFileName);
+ err=readSTLstring(argc,argv, "-and", &GIZA_OpFileName);
  andOp=true;  
  if(err==-1)
  {
    andOp=false; 
  }
  /* Verify -or option */
- err=readString(argc,argv, "-or", GIZA_OpFileName);
+ err=readSTLstring(argc,argv, "-or", &GIZA_OpFileName);
  orOp=true;  
  if(err==-1)
  {
    orOp=false; 
  }  
  /* Verify -sum option */
- err=readString(argc,argv, "-sum", GIZA_OpFileName);
+ err=readSTLstring(argc,argv, "-sum", &GIZA_OpFileName);
  sumOp=true;  
  if(err==-1)
  {
@@ -483,7 +483,7 @@ int TakeParameters(int argc,char *argv[])
  }
   
  /* Verify -sym1 option */
- err=readString(argc,argv, "-sym1", GIZA_OpFileName);
+ err=readSTLstring(argc,argv, "-sym1", &GIZA_OpFileName);
  symmetr1Op=true;  
  if(err==-1)
  {
@@ -491,7 +491,7 @@ int TakeParameters(int argc,char *argv[])
  }
   
  /* Verify -sym2 option */
- err=readString(argc,argv, "-sym2", GIZA_OpFileName);
+ err=readSTLstring(argc,argv, "-sym2", &GIZA_OpFileName);
  symmetr2Op=true;  
  if(err==-1)
  {
@@ -499,7 +499,7 @@ int TakeParameters(int argc,char *argv[])
  }
 
   /* Verify -grd option */
- err=readString(argc,argv, "-grd", GIZA_OpFileName);
+ err=readSTLstring(argc,argv, "-grd", &GIZA_OpFileName);
  growDiagFinalOp=true;  
  if(err==-1)
  {
-- 
2.43.0


From 890fa36ae771fcb5ead823a8a11bce5ba341af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 037/115] fix: thot_pbs_gen_phr_model -mon generates a monotone
 model

---
 utils/phrase_models/thot_gen_phr_model_mr.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/phrase_models/thot_gen_phr_model_mr.sh b/utils/phrase_models/thot_gen_phr_model_mr.sh
index 2a6dbf0..eab4805 100644
--- a/utils/phrase_models/thot_gen_phr_model_mr.sh
+++ b/utils/phrase_models/thot_gen_phr_model_mr.sh
@@ -95,6 +95,8 @@ while [ $# -ne 0 ]; do
         "-brf") thot_pars="$thot_pars -brf"
             estimation="BRF"
             ;;
+        "-mon") thot_pars="$thot_pars -mon"
+            ;;
         "-g") shift
             if [ $# -ne 0 ]; then
                 a3_file=$1
-- 
2.43.0


From b51fba32472325976243b4f53b60394fb36d0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 038/115] fix: sort phrase-table entries with counts below 0.1
 or equal to zero

---
 utils/phrase_models/thot_sort_ttable.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_sort_ttable.sh b/utils/phrase_models/thot_sort_ttable.sh
index e84181d..f23e2a8 100644
--- a/utils/phrase_models/thot_sort_ttable.sh
+++ b/utils/phrase_models/thot_sort_ttable.sh
@@ -45,7 +45,7 @@ put_st_lengths()
                               }
                             }
                             printf"%03d %s |||",num_src_words,src
-                            printf" %.20f %03d %s",(1/$NF),num_trg_words,trg
+                            printf" %040.20f %03d %s",($NF>0 ? 1/$NF : 1e15),num_trg_words,trg
                             printf" ||| %s %s",$(NF-1),$(NF)
                             printf("\n")
 		           }' "$1"
-- 
2.43.0


From 64db704cec4e2b0595410d2a6025dac377a14f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 039/115] fix: do not compare target phrases as numbers

---
 utils/phrase_models/thot_get_nbest_for_trg.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_get_nbest_for_trg.sh b/utils/phrase_models/thot_get_nbest_for_trg.sh
index b492d5d..07bbed3 100644
--- a/utils/phrase_models/thot_get_nbest_for_trg.sh
+++ b/utils/phrase_models/thot_get_nbest_for_trg.sh
@@ -20,7 +20,7 @@ filter_nbest()
                               i=1
                               while($i!="|||")
                               {
-                               if(i==1) strn=$i
+                               if(i==1) strn=$i ""
                                else strn=strn" "$i
                                ++i
                               }
-- 
2.43.0


From 8578fd5f14b3fdf5a3480e9975f7fe860f864f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 040/115] fix: print the remaining count of the last target
 phrase

---
 utils/phrase_models/thot_get_nbest_for_trg.sh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/phrase_models/thot_get_nbest_for_trg.sh b/utils/phrase_models/thot_get_nbest_for_trg.sh
index 07bbed3..ac30839 100644
--- a/utils/phrase_models/thot_get_nbest_for_trg.sh
+++ b/utils/phrase_models/thot_get_nbest_for_trg.sh
@@ -57,6 +57,11 @@ filter_nbest()
                                 else remainder+=$NF
                                }
                               }
+                             }
+                             END{
+                              # print remainder of the last block
+                              if(p && remainder>0)
+                                printf "%s ||| <UNUSED_WORD> ||| 0 %.8f\n",trgToProcess,remainder
                              }'
 }
 
-- 
2.43.0


From bd2c9427dd6ec5ad75e0064f59693c96f304b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 041/115] fix: filter an empty phrase table without error

---
 utils/phrase_models/thot_filter_ttable_given_corpus.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_filter_ttable_given_corpus.sh b/utils/phrase_models/thot_filter_ttable_given_corpus.sh
index c65db94..5c4cfa6 100644
--- a/utils/phrase_models/thot_filter_ttable_given_corpus.sh
+++ b/utils/phrase_models/thot_filter_ttable_given_corpus.sh
@@ -89,6 +89,6 @@ else
                  ++total;
                }
             END{
-                 printf "%d of %d phrase pairs used (%.2f%%)\n",used,total,(100*used/total) > "/dev/stderr" 
+                 printf "%d of %d phrase pairs used (%.2f%%)\n",used,total,(total>0 ? 100*used/total : 0) > "/dev/stderr" 
                }' "$input"
 fi
-- 
2.43.0


From 3391d12ca93ab6f62258df15fb35c28415acfa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 042/115] fix: merging no counts gives no counts

---
 utils/phrase_models/thot_merge_counts.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_merge_counts.sh b/utils/phrase_models/thot_merge_counts.sh
index e7a29f5..ec760e2 100644
--- a/utils/phrase_models/thot_merge_counts.sh
+++ b/utils/phrase_models/thot_merge_counts.sh
@@ -106,6 +106,6 @@ else
           }
        END{
              # print last group of counts
-             print_counts()
+             if(first_entry==0) print_counts()
           }' "$1"
 fi
-- 
2.43.0


From 0975a259ba7d286016c3f2c34ecd9b835d2eda02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:23 +0000
Subject: [PATCH 043/115] fix: thot_conv_giza_alig_file prints text, not bytes
 literals

---
 utils/phrase_models/thot_conv_giza_alig_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/phrase_models/thot_conv_giza_alig_file.py b/utils/phrase_models/thot_conv_giza_alig_file.py
index 939a4e7..59f56b7 100644
--- a/utils/phrase_models/thot_conv_giza_alig_file.py
+++ b/utils/phrase_models/thot_conv_giza_alig_file.py
@@ -69,8 +69,8 @@ def conv_giza_file_to_human(gfile):
 
         # Print entry information
         ## print header
-        print(line1.encode("utf-8"))
-        print("trg:",line2.encode("utf-8"))
+        print(line1)
+        print("trg:",line2)
         print("src:", end=' ')
         for j in range(1,len(srcw_array)):
             print(srcw_array[j], end=' ')
-- 
2.43.0


From 22e0cba5f0ede8d3cd05e7a68299a987106dffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 044/115] fix: edit distance given an empty prefix deletes
 nothing

---
 src/error_correction/EditDistForStr.cc       | 6 ++++++
 src/error_correction/EditDistForVecString.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/error_correction/EditDistForStr.cc b/src/error_correction/EditDistForStr.cc
index 360b64c..8838909 100644
--- a/src/error_correction/EditDistForStr.cc
+++ b/src/error_correction/EditDistForStr.cc
@@ -251,6 +251,12 @@ Score EditDistForStr::processMatrixCellPref(const std::string& x,
       {
         pred_i=i-1;
         pred_j=0;
+        if(usePrefDelOp && y.size()==0)
+        {
+              // An empty prefix: the rest of x is not deleted
+          op_id=PREF_DEL_OP;
+          return dm[i-1][0];
+        }
         op_id=DEL_OP;
         return dm[i-1][0] + deletionCost(x[i-1]);
       }
diff --git a/src/error_correction/EditDistForVecString.cc b/src/error_correction/EditDistForVecString.cc
index 36ea160..50e1460 100644
--- a/src/error_correction/EditDistForVecString.cc
+++ b/src/error_correction/EditDistForVecString.cc
@@ -471,6 +471,12 @@ Score EditDistForVecString::processMatrixCellPref(const std::vector<std::string>
       {
         pred_i=i-1;
         pred_j=0;
+        if(usePrefDelOp && y.size()==0)
+        {
+              // An empty prefix: the rest of x is not deleted
+          op_id=PREF_DEL_OP;
+          return dm[i-1][0];
+        }
         op_id=DEL_OP;
         return dm[i-1][0] + deletionCost(x[i-1]);
       }
-- 
2.43.0


From bb86dd375a1d52d392143d2921cd9b7bce1c783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 045/115] fix: the blank closing a prefix is no character of
 its last word

---
 src/error_correction/EditDistForVecString.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/EditDistForVecString.cc b/src/error_correction/EditDistForVecString.cc
index 50e1460..b6799e4 100644
--- a/src/error_correction/EditDistForVecString.cc
+++ b/src/error_correction/EditDistForVecString.cc
@@ -177,10 +177,15 @@ void EditDistForVecString::incrEditDistPrefixFirstRow(const std::vector<std::str
   
   for(unsigned int j=0; j<incr_y.size(); ++j)
   {
+        // A blank character in the last word only means that the word is
+        // complete
+    std::string yWord=incr_y[j];
+    if(j+1==incr_y.size())
+      yWord=StrProcUtils::removeLastBlank(yWord);
     if(startingPos+j==0)
-      newScoreVec.push_back(insertionCost(incr_y[j]));
+      newScoreVec.push_back(insertionCost(yWord));
     else
-      newScoreVec.push_back(newScoreVec[startingPos+j-1] + insertionCost(incr_y[j]));
+      newScoreVec.push_back(newScoreVec[startingPos+j-1] + insertionCost(yWord));
   }
 }
 
-- 
2.43.0


From e97763b4b5d87c3ec28e861330cbe70958dc1974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 046/115] fix: correcting an empty n-best translation gives the
 prefix

---
 src/error_correction/NonPbEcModelForNbUcat.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/NonPbEcModelForNbUcat.cc b/src/error_correction/NonPbEcModelForNbUcat.cc
index 1ef279f..ed37f67 100644
--- a/src/error_correction/NonPbEcModelForNbUcat.cc
+++ b/src/error_correction/NonPbEcModelForNbUcat.cc
@@ -72,7 +72,8 @@ NonPbEcModelForNbUcat::nonPhraseBasedAlign(const std::vector<std::string>& _outp
       // Init vars
   outputSentVec=_outputSentVec;
   sourceCuts.clear();
-  sourceCuts.push_back(outputSentVec.size()-1);
+  if(!outputSentVec.empty())
+    sourceCuts.push_back(outputSentVec.size()-1);
   prefixVec=_prefixVec;
   
   if(verbose) std::cerr<<"*** Starting prefix aligner"<<std::endl;
@@ -107,7 +108,8 @@ NonPbEcModelForNbUcat::nonPhraseBasedAlign(const std::vector<std::string>& _outp
     sim=ecm_ptr->similarityGivenPrefix(_outputSentVec,_prefixVec);
 
         // Store alignment in the n-best corrections list
-    prefAlignInfo.transCuts.push_back(_outputSentVec.size()-1);
+    if(!_outputSentVec.empty())
+      prefAlignInfo.transCuts.push_back(_outputSentVec.size()-1);
     prefAlignInfo.prefCuts.push_back(_prefixVec.size()-1);
     addSegm(sim,prefAlignInfo);
 
@@ -178,6 +180,9 @@ std::vector<std::string> NonPbEcModelForNbUcat::correctedSent(PrefAlignInfo& pre
   unsigned int l;
   unsigned int lastTransCut;
   
+      // The correction of an empty sentence is the prefix
+  if(outputSentVec.empty()) return prefixVec;
+
       // Determine the value of l
   l=0;
   if(prefAlignInfo.transCuts.size()>0)
-- 
2.43.0


From 3a6c30872fdfdef296d48589b35d00f53a95ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 047/115] fix: loading a LevelDB phrase model keeps the
 database loaded before it

---
 src/phrase_models/LevelDbPhraseModel.cc |  5 +++--
 src/phrase_models/LevelDbPhraseTable.cc | 12 ++++++++++++
 src/phrase_models/LevelDbPhraseTable.h  |  2 ++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/phrase_models/LevelDbPhraseModel.cc b/src/phrase_models/LevelDbPhraseModel.cc
index ef6a594..5c6cde8 100644
--- a/src/phrase_models/LevelDbPhraseModel.cc
+++ b/src/phrase_models/LevelDbPhraseModel.cc
@@ -312,8 +312,9 @@ bool LevelDbPhraseModel::load_given_prefix(const char *prefix)
 {
   bool ret;
 
-      // Clear previous tables
-  levelDbPhraseTable.clear();
+      // Clear previous tables (the database of a previously loaded model
+      // is only closed, its content is kept on disk)
+  levelDbPhraseTable.close();
   segLenTable.clear();
 
       // Load source vocabulary
diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index 3297845..f9f55c9 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -184,6 +184,18 @@ bool LevelDbPhraseTable::load(std::string levelDbPath)
     }
 }
 
+//-------------------------
+void LevelDbPhraseTable::close(void)
+{
+    if(db != NULL)
+    {
+        delete db;
+        db = NULL;
+    }
+
+    dbName = "";
+}
+
 //-------------------------
 std::vector<WordIndex> LevelDbPhraseTable::encodeSrc(const std::vector<WordIndex>& s)
 {
diff --git a/src/phrase_models/LevelDbPhraseTable.h b/src/phrase_models/LevelDbPhraseTable.h
index ed817fa..375bab2 100644
--- a/src/phrase_models/LevelDbPhraseTable.h
+++ b/src/phrase_models/LevelDbPhraseTable.h
@@ -98,6 +98,8 @@ class LevelDbPhraseTable: public BasePhraseTable
     virtual bool drop();
         // Wrapper for loading existing levelDB
     virtual bool load(std::string levelDbPath);
+        // Wrapper for closing levelDB without modifying its content
+    virtual void close(void);
         // Abstract function definitions
     virtual void addTableEntry(const std::vector<WordIndex>& s,
                                const std::vector<WordIndex>& t,
-- 
2.43.0


From b18b401997edf1618b434e4e457c3cdac966cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 048/115] fix: LevelDB phrase tables store fractional counts

---
 src/phrase_models/LevelDbPhraseTable.cc | 28 ++++++++++++-------------
 src/phrase_models/LevelDbPhraseTable.h  | 10 ++++-----
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index f9f55c9..80fc53e 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -85,7 +85,7 @@ std::vector<WordIndex> LevelDbPhraseTable::keyToVector(const std::string key)con
 }
 
 //-------------------------
-bool LevelDbPhraseTable::retrieveData(const std::vector<WordIndex>& phrase, int &count)const
+bool LevelDbPhraseTable::retrieveData(const std::vector<WordIndex>& phrase, float &count)const
 {
     std::string value_str;
     count = 0;
@@ -94,7 +94,7 @@ bool LevelDbPhraseTable::retrieveData(const std::vector<WordIndex>& phrase, int
     leveldb::Status result = db->Get(leveldb::ReadOptions(), key, &value_str);  // Read stored src value
 
     if (result.ok()) {
-        count = atoi(value_str.c_str());
+        count = (float) atof(value_str.c_str());
         return true;
     } else {
         return false;
@@ -102,7 +102,7 @@ bool LevelDbPhraseTable::retrieveData(const std::vector<WordIndex>& phrase, int
 }
 
 //-------------------------
-bool LevelDbPhraseTable::storeData(const std::vector<WordIndex>& phrase, int count)const
+bool LevelDbPhraseTable::storeData(const std::vector<WordIndex>& phrase, float count)const
 {
     std::stringstream ss;
     ss.precision(9);  // Enough digits to recover any float value exactly
@@ -283,15 +283,15 @@ void LevelDbPhraseTable::addTableEntry(const std::vector<WordIndex>& s,
                                        PhrasePairInfo inf)
 {
     addSrcInfo(s, inf.first.get_c_s());  // (USUSED_WORD, s)
-    storeData(t, (int) round(inf.second.get_c_s()));  // (t)
-    addSrcTrgInfo(s, t, (int) round(inf.second.get_c_st())); // (t, UNUSED_WORD, s)
+    storeData(t, inf.second.get_c_s());  // (t)
+    addSrcTrgInfo(s, t, inf.second.get_c_st()); // (t, UNUSED_WORD, s)
 }
 
 //-------------------------
 void LevelDbPhraseTable::addSrcInfo(const std::vector<WordIndex>& s,
                                     Count s_inf)
 {
-    storeData(encodeSrc(s), (int) round(s_inf.get_c_s()));
+    storeData(encodeSrc(s), s_inf.get_c_s());
 }
 
 //-------------------------
@@ -299,7 +299,7 @@ void LevelDbPhraseTable::addSrcTrgInfo(const std::vector<WordIndex>& s,
                                        const std::vector<WordIndex>& t,
                                        Count st_inf)
 {
-    storeData(encodeTrgSrc(s, t), (int) round(st_inf.get_c_st()));  // (t, UNUSED_WORD, s)
+    storeData(encodeTrgSrc(s, t), st_inf.get_c_st());  // (t, UNUSED_WORD, s)
 }
 
 //-------------------------
@@ -314,7 +314,7 @@ void LevelDbPhraseTable::incrCountsOfEntry(const std::vector<WordIndex>& s,
 
     // Update counts
     addSrcInfo(s, s_count + c);  // (USUSED_WORD, s)
-    storeData(t, (int) round((t_count + c).get_c_s()));  // (t)
+    storeData(t, (t_count + c).get_c_s());  // (t)
     addSrcTrgInfo(s, t, (src_trg_count + c).get_c_st());
 }
 
@@ -342,10 +342,10 @@ PhrasePairInfo LevelDbPhraseTable::infSrcTrg(const std::vector<WordIndex>& s,
 Count LevelDbPhraseTable::getInfo(const std::vector<WordIndex>& key,
                                   bool &found)
 {
-    int count;
+    float count;
     found = retrieveData(key, count);
 
-    Count result = (found) ? Count((float) count) : Count();
+    Count result = (found) ? Count(count) : Count();
 
     return result;
 }
@@ -514,7 +514,7 @@ void LevelDbPhraseTable::print(bool printString)
     std::cout << "levelDB content:" << std::endl;   
     for(LevelDbPhraseTable::const_iterator iter = begin(); iter != end(); iter++)
     {
-        std::pair<std::vector<WordIndex>, int> x = *iter;
+        std::pair<std::vector<WordIndex>, float> x = *iter;
         if (printString) {
             for(size_t i = 0; i < x.first.size(); i++)
                 std::cout << x.first[i] << " ";
@@ -622,19 +622,19 @@ int LevelDbPhraseTable::const_iterator::operator!=(const const_iterator& right)
 }
 
 //--------------------------
-std::pair<std::vector<WordIndex>, int> LevelDbPhraseTable::const_iterator::operator*(void)
+std::pair<std::vector<WordIndex>, float> LevelDbPhraseTable::const_iterator::operator*(void)
 {
     return *operator->();
 }
 
 //--------------------------
-const std::pair<std::vector<WordIndex>, int>*
+const std::pair<std::vector<WordIndex>, float>*
 LevelDbPhraseTable::const_iterator::operator->(void)
 {
     std::string key = internalIter->key().ToString();
     std::vector<WordIndex> key_vec = ptPtr->keyToVector(key);
 
-    int count = atoi(internalIter->value().ToString().c_str());
+    float count = (float) atof(internalIter->value().ToString().c_str());
 
     dataItem = std::make_pair(key_vec, count);
 
diff --git a/src/phrase_models/LevelDbPhraseTable.h b/src/phrase_models/LevelDbPhraseTable.h
index 375bab2..321a582 100644
--- a/src/phrase_models/LevelDbPhraseTable.h
+++ b/src/phrase_models/LevelDbPhraseTable.h
@@ -70,8 +70,8 @@ class LevelDbPhraseTable: public BasePhraseTable
     virtual std::vector<WordIndex> stringToVector(const std::string s)const;
 
         // Read and write data
-    virtual bool retrieveData(const std::vector<WordIndex>& phrase, int &count)const;
-    virtual bool storeData(const std::vector<WordIndex>& phrase, int count)const;
+    virtual bool retrieveData(const std::vector<WordIndex>& phrase, float &count)const;
+    virtual bool storeData(const std::vector<WordIndex>& phrase, float count)const;
 
   
   public:
@@ -175,7 +175,7 @@ class LevelDbPhraseTable: public BasePhraseTable
       protected:
         const LevelDbPhraseTable* ptPtr;
         leveldb::Iterator* internalIter;
-        std::pair<std::vector<WordIndex>, int> dataItem;
+        std::pair<std::vector<WordIndex>, float> dataItem;
            
       public:
         const_iterator(void)
@@ -192,8 +192,8 @@ class LevelDbPhraseTable: public BasePhraseTable
         bool operator++(int);  //postfix
         int operator==(const const_iterator& right); 
         int operator!=(const const_iterator& right);
-        std::pair<std::vector<WordIndex>, int> operator*(void);
-        const std::pair<std::vector<WordIndex>, int>* operator->(void);
+        std::pair<std::vector<WordIndex>, float> operator*(void);
+        const std::pair<std::vector<WordIndex>, float>* operator->(void);
         ~const_iterator()
         {
           if(internalIter != NULL) {
-- 
2.43.0


From 3d0edcc4974df572adb6ba966ce7a250594431a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 049/115] fix: adding an entry to a LevelDB phrase table adds
 its count to c(t)

---
 src/phrase_models/LevelDbPhraseTable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index 80fc53e..3ac9310 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -282,8 +282,10 @@ void LevelDbPhraseTable::addTableEntry(const std::vector<WordIndex>& s,
                                        const std::vector<WordIndex>& t,
                                        PhrasePairInfo inf)
 {
+    Count t_count = cTrg(t);
+
     addSrcInfo(s, inf.first.get_c_s());  // (USUSED_WORD, s)
-    storeData(t, inf.second.get_c_s());  // (t)
+    storeData(t, (t_count + inf.second).get_c_s());  // (t)
     addSrcTrgInfo(s, t, inf.second.get_c_st()); // (t, UNUSED_WORD, s)
 }
 
-- 
2.43.0


From f1776c4cdd3e2b951eebd59f73ae19d2d5920115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 050/115] fix: binary phrase tables keep the source counts of
 the text table

---
 src/phrase_models/FastBdbPhraseTable.cc     | 14 ++++++++++++++
 src/phrase_models/FastBdbPhraseTable.h      |  5 ++++-
 src/phrase_models/thot_ttable_to_fbdb.cc    | 15 ++++++++-------
 src/phrase_models/thot_ttable_to_leveldb.cc | 15 ++++++++-------
 4 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/phrase_models/FastBdbPhraseTable.cc b/src/phrase_models/FastBdbPhraseTable.cc
index f0bff90..db228e0 100644
--- a/src/phrase_models/FastBdbPhraseTable.cc
+++ b/src/phrase_models/FastBdbPhraseTable.cc
@@ -261,6 +261,20 @@ int FastBdbPhraseTable::incrPhrDictCount(const std::vector<WordIndex>& s,
   }
 }
 
+//-------------------------
+void FastBdbPhraseTable::addTableEntry(const std::vector<WordIndex>& s,
+                                       const std::vector<WordIndex>& t,
+                                       PhrasePairInfo inf)
+{
+      // Fast search is no longer available
+  resetFastSearchAvailableFlag();
+
+  std::vector<WordIndex> emptyPhrase;
+  putDataForPhrDict(s,t,inf.second);
+  putDataForPhrDict(s,emptyPhrase,inf.first);
+  incrPhrDictCount(emptyPhrase,t,inf.second);
+}
+
 //-------------------------
 void FastBdbPhraseTable::incrCountsOfEntry(const std::vector<WordIndex>& s,
                                            const std::vector<WordIndex>& t,
diff --git a/src/phrase_models/FastBdbPhraseTable.h b/src/phrase_models/FastBdbPhraseTable.h
index 67733bf..a5ccef5 100644
--- a/src/phrase_models/FastBdbPhraseTable.h
+++ b/src/phrase_models/FastBdbPhraseTable.h
@@ -160,11 +160,14 @@ class FastBdbPhraseTable
     bool init(const char *fileName);
 
         // Functions to update table counts
+    void addTableEntry(const std::vector<WordIndex>& s,
+                       const std::vector<WordIndex>& t,
+                       PhrasePairInfo inf);
     void incrCountsOfEntry(const std::vector<WordIndex>& s,
                            const std::vector<WordIndex>& t,
                            Count c);
         // Function to enable fast search. Fast search is disabled
-        // whenever incrCountsOfEntry() is called
+        // whenever addTableEntry() or incrCountsOfEntry() are called
     void enableFastSearch(void);
     
         // Functions to access table
diff --git a/src/phrase_models/thot_ttable_to_fbdb.cc b/src/phrase_models/thot_ttable_to_fbdb.cc
index 6e00741..ae7c9c0 100644
--- a/src/phrase_models/thot_ttable_to_fbdb.cc
+++ b/src/phrase_models/thot_ttable_to_fbdb.cc
@@ -46,7 +46,7 @@ void printUsage(void);
 int extractEntryInfo(AwkInputStream& awk,
                      std::vector<WordIndex>& srcPhr,
                      std::vector<WordIndex>& trgPhr,
-                     Count& jointCount);
+                     PhrasePairInfo& inf);
 int process_ttable(void);
 
 //--------------- Type definitions -----------------------------------
@@ -72,7 +72,7 @@ int main(int argc,char *argv[])
 int extractEntryInfo(AwkInputStream& awk,
                      std::vector<WordIndex>& srcPhr,
                      std::vector<WordIndex>& trgPhr,
-                     Count& jointCount)
+                     PhrasePairInfo& inf)
 {
   unsigned int i;
 
@@ -101,8 +101,9 @@ int extractEntryInfo(AwkInputStream& awk,
   if(i!=awk.NF-2)
     return THOT_ERROR;
 
-      // Obtain joint count
-  jointCount=atof(awk.dollar(awk.NF).c_str());
+      // Obtain source and joint counts
+  inf.first=atof(awk.dollar(awk.NF-1).c_str());
+  inf.second=atof(awk.dollar(awk.NF).c_str());
 
   return THOT_OK;
 }
@@ -131,10 +132,10 @@ int process_ttable(void)
 
       std::vector<WordIndex> srcPhr;
       std::vector<WordIndex> trgPhr;
-      Count jointCount;
-      int ret=extractEntryInfo(awk,srcPhr,trgPhr,jointCount);
+      PhrasePairInfo inf;
+      int ret=extractEntryInfo(awk,srcPhr,trgPhr,inf);
       if(ret==THOT_OK)
-        fastBdbPt.incrCountsOfEntry(srcPhr,trgPhr,jointCount);
+        fastBdbPt.addTableEntry(srcPhr,trgPhr,inf);
     }
 
     fastBdbPt.enableFastSearch();
diff --git a/src/phrase_models/thot_ttable_to_leveldb.cc b/src/phrase_models/thot_ttable_to_leveldb.cc
index 3927899..96dab22 100644
--- a/src/phrase_models/thot_ttable_to_leveldb.cc
+++ b/src/phrase_models/thot_ttable_to_leveldb.cc
@@ -46,7 +46,7 @@ void printUsage(void);
 int extractEntryInfo(AwkInputStream& awk,
                      std::vector<WordIndex>& srcPhr,
                      std::vector<WordIndex>& trgPhr,
-                     Count& jointCount);
+                     PhrasePairInfo& inf);
 int process_ttable(void);
 
 //--------------- Type definitions -----------------------------------
@@ -72,7 +72,7 @@ int main(int argc, char *argv[])
 int extractEntryInfo(AwkInputStream& awk,
                      std::vector<WordIndex>& srcPhr,
                      std::vector<WordIndex>& trgPhr,
-                     Count& jointCount)
+                     PhrasePairInfo& inf)
 {
   unsigned int i;
 
@@ -101,8 +101,9 @@ int extractEntryInfo(AwkInputStream& awk,
   if(i != awk.NF - 2)
     return THOT_ERROR;
 
-      // Obtain joint count
-  jointCount = atof(awk.dollar(awk.NF).c_str());
+      // Obtain source and joint counts
+  inf.first=atof(awk.dollar(awk.NF-1).c_str());
+  inf.second=atof(awk.dollar(awk.NF).c_str());
 
   return THOT_OK;
 }
@@ -135,10 +136,10 @@ int process_ttable(void)
 
       std::vector<WordIndex> srcPhr;
       std::vector<WordIndex> trgPhr;
-      Count jointCount;
-      int ret = extractEntryInfo(awk, srcPhr, trgPhr, jointCount);
+      PhrasePairInfo inf;
+      int ret = extractEntryInfo(awk, srcPhr, trgPhr, inf);
       if(ret == THOT_OK)
-        levelDbPt.incrCountsOfEntry(srcPhr, trgPhr, jointCount);
+        levelDbPt.addTableEntry(srcPhr, trgPhr, inf);
       else
         std::cerr << "Cannot extract entry info" << std::endl;
       i++;
-- 
2.43.0


From f71d8075f8a02b8cd55ff6693bbc069e03fc7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:57 +0000
Subject: [PATCH 051/115] fix: binary phrase-table generation ends on lines
 without a separator

---
 utils/phrase_models/thot_gen_fbdb_ttable.sh    | 2 +-
 utils/phrase_models/thot_gen_leveldb_ttable.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/phrase_models/thot_gen_fbdb_ttable.sh b/utils/phrase_models/thot_gen_fbdb_ttable.sh
index f4c6f82..8e74e79 100644
--- a/utils/phrase_models/thot_gen_fbdb_ttable.sh
+++ b/utils/phrase_models/thot_gen_fbdb_ttable.sh
@@ -115,7 +115,7 @@ extract_first_phrase()
 {
     "$AWK"  '{
               i=1; 
-              while($i!="|||") 
+              while(i<=NF && $i!="|||") 
               {
                 printf"%s ",$i;++i
               }
diff --git a/utils/phrase_models/thot_gen_leveldb_ttable.sh b/utils/phrase_models/thot_gen_leveldb_ttable.sh
index 300bf0c..97414e5 100644
--- a/utils/phrase_models/thot_gen_leveldb_ttable.sh
+++ b/utils/phrase_models/thot_gen_leveldb_ttable.sh
@@ -116,7 +116,7 @@ extract_first_phrase()
 {
     "$AWK"  '{
               i=1; 
-              while($i!="|||") 
+              while(i<=NF && $i!="|||") 
               {
                 printf"%s ",$i;++i
               }
-- 
2.43.0


From ebf7f54b1b053c30a555f3d8e749db341314a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:00 +0000
Subject: [PATCH 052/115] fix: segmentation-length probability beyond the table

---
 src/phrase_models/SegLenTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/SegLenTable.cc b/src/phrase_models/SegLenTable.cc
index 9fb6ba7..edc716e 100644
--- a/src/phrase_models/SegLenTable.cc
+++ b/src/phrase_models/SegLenTable.cc
@@ -40,7 +40,7 @@ SegLenTable::SegLenTable(void)
 //-------------------------
 Prob SegLenTable::pk_tlen(unsigned int tlen,unsigned int k)
 {
-  if(tlen>MAX_SENTENCE_LENGTH || k>MAX_SENTENCE_LENGTH)
+  if(tlen>=MAX_SENTENCE_LENGTH || k>=MAX_SENTENCE_LENGTH)
   {
     return 0;
   }
-- 
2.43.0


From 315b4eca5b03621667e17183f8c2c51821acbd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 053/115] fix: segment lengths are uniform without a table,
 whatever was loaded before

---
 src/phrase_models/SrcSegmLenTable.cc | 1 +
 src/phrase_models/TrgSegmLenTable.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/phrase_models/SrcSegmLenTable.cc b/src/phrase_models/SrcSegmLenTable.cc
index 3118977..74e618a 100644
--- a/src/phrase_models/SrcSegmLenTable.cc
+++ b/src/phrase_models/SrcSegmLenTable.cc
@@ -87,6 +87,7 @@ bool SrcSegmLenTable::load(const char *segmLengthTableFileName)
  if(awk.open(segmLengthTableFileName)==THOT_ERROR)
  {
    std::cerr<<"Warning: source segment length tablefile does not exist, source segment length probability will be assumed to be uniform.\n";
+   mode=SRCSEGMLEN_UNIFORM;
    return 1;
  }
  else
diff --git a/src/phrase_models/TrgSegmLenTable.cc b/src/phrase_models/TrgSegmLenTable.cc
index cd31cb9..adce606 100644
--- a/src/phrase_models/TrgSegmLenTable.cc
+++ b/src/phrase_models/TrgSegmLenTable.cc
@@ -118,6 +118,7 @@ bool TrgSegmLenTable::load(const char *segmLengthTableFileName)
  if(awk.open(segmLengthTableFileName)==THOT_ERROR)
  {
    std::cerr<<"Warning: target segment length tablefile does not exist, target segment length probability will be assumed to be uniform.\n";
+   mode=TRGSEGMLEN_UNIFORM;
    return 1;
  }
  else
-- 
2.43.0


From e531a84dffb2b8dc940acc49a5f45073f54dd202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:51 +0000
Subject: [PATCH 054/115] fix: a JSON annotation longer than the rest of the
 sentence is not in it

---
 src/stack_dec/JsonTranslationMetadata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/JsonTranslationMetadata.h b/src/stack_dec/JsonTranslationMetadata.h
index ebf0ea6..8cc6380 100644
--- a/src/stack_dec/JsonTranslationMetadata.h
+++ b/src/stack_dec/JsonTranslationMetadata.h
@@ -316,7 +316,7 @@ bool JsonTranslationMetadata<SCORE_INFO>::isPhraseInSentence(std::vector<std::st
   if(phrase.empty())
     return true;
 
-  if(startPosition + phrase.size() - 1 > srcSentVec.size())
+  if(startPosition + phrase.size() > srcSentVec.size())
     return false;  // Sentence is too short to contain phrase
   
   for(unsigned int i = 0; i < phrase.size(); i++)
-- 
2.43.0


From 92fae83ed1f6f2d08c4585566a534d4982b17fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:51 +0000
Subject: [PATCH 055/115] fix: a JSON annotation that is not an object is an
 error, not an exception

---
 src/stack_dec/JsonTranslationMetadata.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/JsonTranslationMetadata.h b/src/stack_dec/JsonTranslationMetadata.h
index 8cc6380..accf9d8 100644
--- a/src/stack_dec/JsonTranslationMetadata.h
+++ b/src/stack_dec/JsonTranslationMetadata.h
@@ -162,13 +162,13 @@ void JsonTranslationMetadata<SCORE_INFO>::obtainTransConstraints(std::string raw
               
                   // Check if translation field exists
               std::string translation;
-              if((*iter).get("translation").is<std::string>())
+              if(iter->is<picojson::object>() && (*iter).get("translation").is<std::string>())
                 translation = (*iter).get("translation").get<std::string>();
               else
                 success=false;
 
               std::string original;
-              if((*iter).get("original").is<std::string>())
+              if(iter->is<picojson::object>() && (*iter).get("original").is<std::string>())
                 original = (*iter).get("original").get<std::string>();
               else
                 success=false;
-- 
2.43.0


From 84e54995cf3bc1f29e055160a115ee543654b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:51 +0000
Subject: [PATCH 056/115] fix: constraints of a translated sentence do not
 affect later ones

---
 src/stack_dec/_pbTransModel.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stack_dec/_pbTransModel.h b/src/stack_dec/_pbTransModel.h
index 0050dab..09a2da4 100644
--- a/src/stack_dec/_pbTransModel.h
+++ b/src/stack_dec/_pbTransModel.h
@@ -536,6 +536,9 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_ref(std::string srcsent,
       // Set state info
   state=MODEL_TRANSREF_STATE;
 
+      // Discard constraints of previous translations
+  this->trMetadataPtr->clear();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
@@ -587,6 +590,9 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_ver(std::string srcsent,
       // Set state info
   state=MODEL_TRANSVER_STATE;
 
+      // Discard constraints of previous translations
+  this->trMetadataPtr->clear();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
@@ -638,6 +644,9 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_prefix(std::string srcsent,
       // Set state info
   state=MODEL_TRANSPREFIX_STATE;
 
+      // Discard constraints of previous translations
+  this->trMetadataPtr->clear();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
-- 
2.43.0


From 4e020989a5fcf037768867b2a61b35cab5274aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:51 +0000
Subject: [PATCH 057/115] fix: check constraints against alignments that fit
 the translation

---
 src/stack_dec/thot_check_constraints.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/stack_dec/thot_check_constraints.cc b/src/stack_dec/thot_check_constraints.cc
index 26bdc0c..4b82e7f 100644
--- a/src/stack_dec/thot_check_constraints.cc
+++ b/src/stack_dec/thot_check_constraints.cc
@@ -62,6 +62,7 @@ int takeParameters(int argc,
 int checkParameters(input_pars pars);
 int check_constraints(input_pars pars);
 int extract_align_info(std::vector<std::string> alignInfoLine,
+                       unsigned int trgSentSize,
                        SourceSegmentation& sourceSegmentation,
                        std::vector<PositionIndex>& targetSegmentCuts);
 void printUsage(void);
@@ -259,7 +260,7 @@ int check_constraints(input_pars pars)
       std::cout<<"ERROR: ALIGNMENT INFORMATION EMPTY"<<std::endl;
       break;
     }
-    int ret=extract_align_info(alignInfoStrVec,sourceSegmentation,targetSegmentCuts);
+    int ret=extract_align_info(alignInfoStrVec,trgSentVec.size(),sourceSegmentation,targetSegmentCuts);
     if(ret==THOT_ERROR)
     {
       std::cerr<<"Warning: alignment information incorrect at line "<<awkAlig.FNR<<std::endl;
@@ -283,6 +284,7 @@ int check_constraints(input_pars pars)
 
 //--------------------------------
 int extract_align_info(std::vector<std::string> alignInfoStrVec,
+                       unsigned int trgSentSize,
                        SourceSegmentation& sourceSegmentation,
                        std::vector<PositionIndex>& targetSegmentCuts)
 {
@@ -305,6 +307,8 @@ int extract_align_info(std::vector<std::string> alignInfoStrVec,
       }
       else
       {
+        if(i+4>=alignInfoStrVec.size())
+          return THOT_ERROR;
         PositionIndex leftmostPos=atoi(alignInfoStrVec[i+1].c_str());
         PositionIndex rightmostPos=atoi(alignInfoStrVec[i+3].c_str());
         sourceSegmentation.push_back(std::make_pair(leftmostPos,rightmostPos));
@@ -321,6 +325,14 @@ int extract_align_info(std::vector<std::string> alignInfoStrVec,
       end=true;
   }
 
+      // Target segments should end in increasing positions of the target
+      // sentence
+  for(unsigned int k=0;k<targetSegmentCuts.size();++k)
+  {
+    if(targetSegmentCuts[k]>trgSentSize || (k>0 && targetSegmentCuts[k]<targetSegmentCuts[k-1]))
+      return THOT_ERROR;
+  }
+
   if(sourceSegmentation.size()>0 && sourceSegmentation.size()==targetSegmentCuts.size())
     return THOT_OK;
   else
-- 
2.43.0


From b17ef8604668128ad74b0d5a4aad04ec416d6c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 058/115] fix: prune a word graph with the given threshold
 whatever was pruned before

---
 src/error_correction/WordGraph.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 18395c6..06b9585 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1059,6 +1059,9 @@ unsigned int WordGraph::pruneArcsToPredStates(float threshold)
     logThreshold=SMALL_SCORE;
   else logThreshold=log(threshold);
 
+      // Discard the result of previous prunings
+  arcsPruned.assign(wordGraphArcs.size(),false);
+
       // Calculate rest scores
   std::vector<Score> restScores;
   calcRestScores(restScores);
-- 
2.43.0


From d3363b1f7b26600f888efffb5eec2364775e01e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 059/115] fix: BLEU of a corpus without n-grams of some length
 is not above one

---
 src/stack_dec/MiraBleu.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stack_dec/MiraBleu.cc b/src/stack_dec/MiraBleu.cc
index 9b12c9c..a48c681 100644
--- a/src/stack_dec/MiraBleu.cc
+++ b/src/stack_dec/MiraBleu.cc
@@ -40,8 +40,7 @@ double MiraBleu::scoreFromStats(std::vector<unsigned int>& stats){
   for (unsigned int sz=1; sz<=4; sz++) {
     unsigned int prec = stats[sz*2];
     unsigned int total = stats[sz*2+1];
-    if (total == 0) log_aux += 1;
-    else            log_aux += (double)my_log((double)prec/total);
+    if (total != 0) log_aux += (double)my_log((double)prec/total);
   }
   log_aux /= 4;
   return bp * (double)exp(log_aux);
-- 
2.43.0


From 26541f3e31a8a719eee08801d9e481de344bbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 060/115] fix: GTM score without matches is zero, not NaN

---
 src/stack_dec/MiraGtm.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stack_dec/MiraGtm.cc b/src/stack_dec/MiraGtm.cc
index 59f0411..1ae507a 100644
--- a/src/stack_dec/MiraGtm.cc
+++ b/src/stack_dec/MiraGtm.cc
@@ -160,6 +160,11 @@ double MiraGtm::scoreFromStats(std::vector<unsigned int>& stats){
   // stats = [matchings, candidate_len, reference_len]
   double pre, rec, f1;
 
+  // without matches, precision and recall may be zero or undefined
+  if (stats[0] == 0)
+    return 0;
+
+
   pre = double(stats[0])/stats[1];
   rec = double(stats[0])/stats[2];
 
-- 
2.43.0


From 321fe2a6eb064c693c3bd039a7617812ad2efe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 061/115] fix: chrF precision counts no n-grams longer than the
 system sentence

---
 src/stack_dec/chrf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/chrf.cc b/src/stack_dec/chrf.cc
index be9abca..2250edf 100644
--- a/src/stack_dec/chrf.cc
+++ b/src/stack_dec/chrf.cc
@@ -254,6 +254,6 @@ void count_ngrams(const std::string& refSentence,
     }
 
     count = std::min(countref, countsys);
-    precision = systotal == 0 ? 1 : (float)count/systotal;
+    precision = systotal == 0 ? 0 : (float)count/systotal;
     recall = reftotal == 0 ? 1 : (float)count/reftotal;
 }
-- 
2.43.0


From d3d33e1f679f15ad1e551409a4ccd28bd43ca437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 062/115] fix: thot_scorer reports files with different numbers
 of sentences

---
 src/stack_dec/thot_scorer.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stack_dec/thot_scorer.cc b/src/stack_dec/thot_scorer.cc
index 87ca35d..dcef62d 100644
--- a/src/stack_dec/thot_scorer.cc
+++ b/src/stack_dec/thot_scorer.cc
@@ -240,6 +240,13 @@ int calc_score(const thot_scorer_pars& pars)
   if(retVal==THOT_ERROR)
     return THOT_ERROR;
 
+      // Check number of sentences
+  if(referenceVec.size()!=sysSentVec.size())
+  {
+    std::cerr<<"Error: the number of references and system sentences is different"<<std::endl;
+    return THOT_ERROR;
+  }
+
       // Calculate score
   double score;
   baseScorerPtr->corpusScore(sysSentVec,
-- 
2.43.0


From 4818f386ca52210f1d4143253edf660e05227756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 063/115] fix: thot_calc_bleu reports translations without
 reference

---
 src/stack_dec/bleu.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stack_dec/bleu.cc b/src/stack_dec/bleu.cc
index 963d514..2f7ed97 100644
--- a/src/stack_dec/bleu.cc
+++ b/src/stack_dec/bleu.cc
@@ -153,6 +153,12 @@ int calc_bleuf(FILE *reff,
     if(verbosity) std::cerr<<std::endl;
   }
 
+  if(sysStream.getln())
+  {
+    std::cerr<<"Unexpected end of reference file."<<std::endl;
+    return THOT_ERROR;
+  }
+
       // calculate brevity penalty
   if (sysWords<refWords)
   {
-- 
2.43.0


From 0d49e93a0821b9b0a8c57f10ba573b8cf839215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 064/115] fix: thot_calc_wer reports files of different lengths
 and accepts empty references

---
 utils/stack_dec/thot_calc_wer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utils/stack_dec/thot_calc_wer.py b/utils/stack_dec/thot_calc_wer.py
index d2db09d..b3142c0 100644
--- a/utils/stack_dec/thot_calc_wer.py
+++ b/utils/stack_dec/thot_calc_wer.py
@@ -89,7 +89,11 @@ def main(argv):
     # Read parallel files line by line
     running_words=0.0
     eddist=0.0
-    for rline, tline in zip(rfile,tfile):
+    for rline, tline in itertools.zip_longest(rfile,tfile):
+        if(rline is None or tline is None):
+            print("Error! the number of references and translations is different", file=sys.stderr)
+            sys.exit(1)
+
         # Read reference and test sentences
         rline=rline.strip("\n")
         ref_word_array=rline.split()
@@ -103,11 +107,11 @@ def main(argv):
 
         # Print verbose information
         if(verbose==1):
-            sent_wer=float(sent_eddist)/float(len(ref_word_array))
+            sent_wer=float(sent_eddist)/float(max(len(ref_word_array),1))
             print(format(sent_wer,'g'),"|||",rline,"|||",tline)
 
     # Print WER
-    WER=(eddist/running_words)
+    WER=(eddist/max(running_words,1.0))
     print("WER:",format(WER,'g'),"(",format(eddist,'g'),"/",format(running_words,'g'),")")
 
 if __name__ == "__main__":
-- 
2.43.0


From f1343bcbe170e9cc3ea1a62db4f74b6e8e88c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 065/115] fix: the last character of a file without final end
 of line is not dropped

---
 src/nlp_common/AwkInputStream.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlp_common/AwkInputStream.cc b/src/nlp_common/AwkInputStream.cc
index 70d0e2f..da6ce96 100644
--- a/src/nlp_common/AwkInputStream.cc
+++ b/src/nlp_common/AwkInputStream.cc
@@ -56,7 +56,8 @@ bool AwkInputStream::getln(void)
     read=getline(&buff,&buftlen,filePtr);
     if(read!=-1)
     {
-      buff[read-1]='\0';
+          // Remove end of line (the last line of the file may lack it)
+      if(buff[read-1]=='\n') buff[read-1]='\0';
       ++FNR;   
       NF=get_NF();   
       return true;   
-- 
2.43.0


From d8acc8d1741734943dacb9641a7d389dbb1de4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 066/115] fix: weights and on-the-fly features of a sentence do
 not outlive its translation

---
 src/stack_dec/_pbTransModel.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/_pbTransModel.h b/src/stack_dec/_pbTransModel.h
index 09a2da4..cecbc53 100644
--- a/src/stack_dec/_pbTransModel.h
+++ b/src/stack_dec/_pbTransModel.h
@@ -536,8 +536,11 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_ref(std::string srcsent,
       // Set state info
   state=MODEL_TRANSREF_STATE;
 
-      // Discard constraints of previous translations
+      // Discard constraints, on-the-fly features and weights of previous
+      // translations
   this->trMetadataPtr->clear();
+  onTheFlyFeaturesInfo.featPtrVec=this->trMetadataPtr->getOnTheFlyModelFeatures();
+  initFeatWeights(defaultFeatWeights);
 
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
@@ -590,8 +593,11 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_ver(std::string srcsent,
       // Set state info
   state=MODEL_TRANSVER_STATE;
 
-      // Discard constraints of previous translations
+      // Discard constraints, on-the-fly features and weights of previous
+      // translations
   this->trMetadataPtr->clear();
+  onTheFlyFeaturesInfo.featPtrVec=this->trMetadataPtr->getOnTheFlyModelFeatures();
+  initFeatWeights(defaultFeatWeights);
 
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
@@ -644,8 +650,11 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_prefix(std::string srcsent,
       // Set state info
   state=MODEL_TRANSPREFIX_STATE;
 
-      // Discard constraints of previous translations
+      // Discard constraints, on-the-fly features and weights of previous
+      // translations
   this->trMetadataPtr->clear();
+  onTheFlyFeaturesInfo.featPtrVec=this->trMetadataPtr->getOnTheFlyModelFeatures();
+  initFeatWeights(defaultFeatWeights);
 
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
-- 
2.43.0


From 788084549655a57fb87a8a8d99a7886bb9db17f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 067/115] fix: lines of a dictionary that are no entries are
 skipped

---
 src/stack_dec/DictFeat.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/DictFeat.h b/src/stack_dec/DictFeat.h
index 2206477..f5362cb 100644
--- a/src/stack_dec/DictFeat.h
+++ b/src/stack_dec/DictFeat.h
@@ -132,10 +132,13 @@ int DictFeat<SCORE_INFO>::load(std::string modelFileName)
       std::vector<std::string> srcPhr;
       std::vector<std::string> trgPhr;
       Score scr;
-      extractEntryInfo(awk,srcPhr,trgPhr,scr);
+      int ret=extractEntryInfo(awk,srcPhr,trgPhr,scr);
 
           // Insert information into dictionary
-      insertEntry(srcPhr,trgPhr,scr);
+      if(ret==THOT_OK)
+        insertEntry(srcPhr,trgPhr,scr);
+      else
+        std::cerr<<"Warning: cannot extract entry info from line "<<awk.FNR<<" of dictionary "<<modelFileName<<std::endl;
     }
   }
   
-- 
2.43.0


From ebc8fd08bfaf971338b870214bfdcfc49f0034b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 068/115] fix: MIRA keeps the current weights when no better
 ones are found and skips empty n-best lists

---
 src/stack_dec/KbMiraLlWu.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/KbMiraLlWu.cc b/src/stack_dec/KbMiraLlWu.cc
index 1ca4bae..7c85bab 100644
--- a/src/stack_dec/KbMiraLlWu.cc
+++ b/src/stack_dec/KbMiraLlWu.cc
@@ -68,7 +68,7 @@ void KbMiraLlWu::update(const std::string& reference,
 
   assert (nblist.size() == scoreCompsVec.size());
 
-  std::vector<double> max_wAvg;
+  std::vector<double> max_wAvg(currWeightsVec);
   double quality, max_quality = 0;
 
   scorer->resetBackgroundCorpus();
@@ -163,7 +163,7 @@ void KbMiraLlWu::updateClosedCorpus(const std::vector<std::string>& references,
   // std::cerr << bleu << std::endl;
   // //##########################################################################
 
-  std::vector<double> max_wAvg;
+  std::vector<double> max_wAvg(currWeightsVec);
   double quality, max_quality = 0;
 
   scorer->resetBackgroundCorpus();
@@ -257,6 +257,7 @@ void KbMiraLlWu::MaxTranslation(const std::vector<double>& wv,
                                 const std::vector<std::vector<double> >& nScores,
                                 std::string& maxTranslation)
 {
+  maxTranslation.clear();
   double max_score=-DBL_MAX;
   for (unsigned int n=0; n<nBest.size(); n++) {
     double score = 0;
@@ -282,6 +283,10 @@ void KbMiraLlWu::HopeFear(const std::string& reference,
   double hope_total_score=-DBL_MAX;
   double fear_total_score=-DBL_MAX;
 
+      // There is nothing to hope for or to fear in an empty list
+  hopeFear->hopeScore = hopeFear->hopeQuality = 0;
+  hopeFear->fearScore = hopeFear->fearQuality = 0;
+
   //std::cerr << "R: " << reference << std::endl;
 
   for (unsigned int n=0; n<nBest.size(); n++) {
-- 
2.43.0


From 97fd371a69dff8a937cccf7ff55a3c9f99c11543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 069/115] fix: thot_ll_weight_upd_nblist works without -va and
 checks its input

---
 src/stack_dec/thot_ll_weight_upd_nblist.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/stack_dec/thot_ll_weight_upd_nblist.cc b/src/stack_dec/thot_ll_weight_upd_nblist.cc
index 0836e66..7a0faa0 100644
--- a/src/stack_dec/thot_ll_weight_upd_nblist.cc
+++ b/src/stack_dec/thot_ll_weight_upd_nblist.cc
@@ -228,7 +228,7 @@ int checkParameters(thot_llwu_nblist_pars& pars)
     return THOT_ERROR;   
   }
 
-  if(pars.includeVarStr.size()!=pars.llWeightVec.size())
+  if(!pars.includeVarStr.empty() && pars.includeVarStr.size()!=pars.llWeightVec.size())
   {
     std::cerr<<"Error: number of weights provided by -w and -va options are not equal!"<<std::endl;
     return THOT_ERROR;       
@@ -411,6 +411,24 @@ int update_ll_weights(const thot_llwu_nblist_pars& pars)
     }
   }
 
+      // Check consistency of the data
+  if(nblistVec.size()!=referenceVec.size())
+  {
+    std::cerr<<"Error: number of n-best lists and references are not equal!"<<std::endl;
+    return THOT_ERROR;
+  }
+  for(unsigned int i=0;i<scoreCompsVec.size();++i)
+  {
+    for(unsigned int j=0;j<scoreCompsVec[i].size();++j)
+    {
+      if(scoreCompsVec[i][j].size()!=currWeightsVec.size())
+      {
+        std::cerr<<"Error: entry "<<j+1<<" of n-best list "<<i+1<<" does not have one score per weight!"<<std::endl;
+        return THOT_ERROR;
+      }
+    }
+  }
+
       // Update log-linear weights
   std::vector<double> newWeightsVec;
   llWeightUpdaterPtr->updateClosedCorpus(referenceVec,
-- 
2.43.0


From 0b849aa33205b15a33701f198c54f754abfd562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:54 +0000
Subject: [PATCH 070/115] fix: thot_lm_weight_upd knows the type of a model
 given by its prefix

---
 src/incr_models/thot_lm_weight_upd.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/incr_models/thot_lm_weight_upd.cc b/src/incr_models/thot_lm_weight_upd.cc
index 878ee2a..3f81c59 100644
--- a/src/incr_models/thot_lm_weight_upd.cc
+++ b/src/incr_models/thot_lm_weight_upd.cc
@@ -257,6 +257,13 @@ int obtain_default_lm_type(std::string& soFileName)
   std::string baseClassName;
   std::string initPars;
 
+      // Load file with dynamic classes
+  if(dynClassFileHandler.load(THOT_MASTER_INI_PATH)==THOT_ERROR)
+  {
+    std::cerr<<"Error while loading ini file"<<std::endl;
+    return THOT_ERROR;
+  }
+
       ////////// Obtain info for BaseNgramLM class
   baseClassName="BaseNgramLM";
   if(dynClassFileHandler.getInfoForBaseClass(baseClassName,soFileName,initPars)==THOT_ERROR)
@@ -275,7 +282,8 @@ int process_lm_entry(std::string corpusFile,
                      int verbosity)
 {
       // Initialize language model
-  init_lm(modelDescEntry.modelInitInfo,verbosity);
+  if(init_lm(modelDescEntry.modelInitInfo,verbosity)==THOT_ERROR)
+    return THOT_ERROR;
 
       // Check if the model has weights to be updated
   incrJelMerLmPtr=dynamic_cast<_incrJelMerNgramLM<Count,Count>* >(lm);
-- 
2.43.0


From aae8163e7bb061d0082cfb5e061d37d4f2399e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 071/115] fix: scripts stop when a directory or the weights
 they need are missing

---
 utils/exper/thot_prepare_sys_for_test.sh | 2 +-
 utils/exper/thot_smt_tune.sh             | 2 +-
 utils/stack_dec/thot_aligner.sh          | 2 +-
 utils/stack_dec/thot_decoder.sh          | 2 +-
 utils/stack_dec/thot_gen_nblists.sh      | 2 +-
 utils/stack_dec/thot_ll_weight_upd.sh    | 6 +++---
 utils/stack_dec/thot_nblist_tune.sh      | 4 ++--
 utils/stack_dec/thot_rnnlm_rescore.sh    | 4 ++--
 8 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/utils/exper/thot_prepare_sys_for_test.sh b/utils/exper/thot_prepare_sys_for_test.sh
index aa9f3f8..1cf65a8 100644
--- a/utils/exper/thot_prepare_sys_for_test.sh
+++ b/utils/exper/thot_prepare_sys_for_test.sh
@@ -471,7 +471,7 @@ else
         # echo "Error! output directory should not exist" >&2 
         # exit 1
     else
-        mkdir -p "${outd}/" || { echo "Error! cannot create output directory" >&2; return 1; }
+        mkdir -p "${outd}/" || { echo "Error! cannot create output directory" >&2; exit 1; }
     fi
     # Obtain absolute path
     outd=`get_absolute_path "$outd"`
diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index 715c631..eaab40d 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -849,7 +849,7 @@ else
     if [ -d ${outd} ]; then
         echo "Warning! output directory does exist" >&2 
     else
-        mkdir -p ${outd} || { echo "Error! cannot create output directory" >&2; return 1; }
+        mkdir -p ${outd} || { echo "Error! cannot create output directory" >&2; exit 1; }
     fi
     # Obtain absolute path
     outd=`get_absolute_path $outd`
diff --git a/utils/stack_dec/thot_aligner.sh b/utils/stack_dec/thot_aligner.sh
index 2890733..474b175 100644
--- a/utils/stack_dec/thot_aligner.sh
+++ b/utils/stack_dec/thot_aligner.sh
@@ -409,7 +409,7 @@ fi
 
 if [ ! -d "${sdir}" ]; then
     echo "Error: shared directory does not exist" >&2
-    return 1;
+    exit 1;
 fi
 
 SDIR=`"${MKTEMP}" -d "${sdir}"/thot_aligner_XXXXXX`
diff --git a/utils/stack_dec/thot_decoder.sh b/utils/stack_dec/thot_decoder.sh
index 0cfc678..3515221 100644
--- a/utils/stack_dec/thot_decoder.sh
+++ b/utils/stack_dec/thot_decoder.sh
@@ -382,7 +382,7 @@ fi
 
 if [ ! -d "${sdir}" ]; then
     echo "Error: shared directory does not exist" >&2
-    return 1;
+    exit 1;
 fi
 
 SDIR=`"${MKTEMP}" -d "${sdir}"/thot_decoder_XXXXXX`
diff --git a/utils/stack_dec/thot_gen_nblists.sh b/utils/stack_dec/thot_gen_nblists.sh
index 5a81066..a2f87f5 100644
--- a/utils/stack_dec/thot_gen_nblists.sh
+++ b/utils/stack_dec/thot_gen_nblists.sh
@@ -214,7 +214,7 @@ else
         # echo "Error! output directory should not exist" >&2 
         # exit 1
     else
-        mkdir -p "${outd}" || { echo "Error! cannot create output directory" >&2; return 1; }
+        mkdir -p "${outd}" || { echo "Error! cannot create output directory" >&2; exit 1; }
     fi
 fi
 
diff --git a/utils/stack_dec/thot_ll_weight_upd.sh b/utils/stack_dec/thot_ll_weight_upd.sh
index 786ab0a..93d8568 100644
--- a/utils/stack_dec/thot_ll_weight_upd.sh
+++ b/utils/stack_dec/thot_ll_weight_upd.sh
@@ -453,14 +453,14 @@ fi
 
 if [ ! -d "${sdir}" ]; then
     echo "Error: shared directory does not exist" >&2
-    return 1;
+    exit 1;
 fi
 
 # Create tmp directory
 
 if [ ! -d "${tdir}" ]; then
     echo "Error: tmp directory does not exist" >&2
-    return 1;
+    exit 1;
 fi
 
 TDIR_LLWU=`"${MKTEMP}" -d "${tdir}"/thot_ll_weight_upd_XXXXXX`
@@ -484,7 +484,7 @@ llweights_values=`extract_weight_values "${raw_llweights}"`
 # Verify that weight info was successfully obtained
 if [ -z "${raw_llweights}" ]; then
     echo "Weight info could not be obtained, check that $cfgfile is correct (use thot_server tool with -w option)">&2
-    return 1
+    exit 1
 fi
 
 # Obtain first iteration weights
diff --git a/utils/stack_dec/thot_nblist_tune.sh b/utils/stack_dec/thot_nblist_tune.sh
index 3115ac3..3931ebd 100644
--- a/utils/stack_dec/thot_nblist_tune.sh
+++ b/utils/stack_dec/thot_nblist_tune.sh
@@ -216,7 +216,7 @@ else
     if [ -d "${outd}" ]; then
         echo "Warning! output directory does exist" >&2 
     else
-        mkdir -p "${outd}" || { echo "Error! cannot create output directory" >&2; return 1; }
+        mkdir -p "${outd}" || { echo "Error! cannot create output directory" >&2; exit 1; }
     fi
 fi
 
@@ -234,7 +234,7 @@ ftol_loglin=0.001
 # Create tmp directory
 if [ ! -d "${tdir}" ]; then
     echo "Error: tmp directory does not exist" >&2
-    return 1;
+    exit 1;
 fi
 
 TDIR_NBLIST_TUNE=`"${MKTEMP}" -d "${tdir}"/thot_nblist_tune_XXXXXX`
diff --git a/utils/stack_dec/thot_rnnlm_rescore.sh b/utils/stack_dec/thot_rnnlm_rescore.sh
index f5a7850..841ac96 100644
--- a/utils/stack_dec/thot_rnnlm_rescore.sh
+++ b/utils/stack_dec/thot_rnnlm_rescore.sh
@@ -243,7 +243,7 @@ else
         # echo "Error! output directory should not exist" >&2 
         # exit 1
     else
-        mkdir -p "${outd}" || { echo "Error! cannot create output directory" >&2; return 1; }
+        mkdir -p "${outd}" || { echo "Error! cannot create output directory" >&2; exit 1; }
     fi
 fi
 
@@ -264,7 +264,7 @@ fi
 # Create tmp directory
 if [ ! -d "${tdir}" ]; then
     echo "Error: tmp directory does not exist" >&2
-    return 1;
+    exit 1;
 fi
 
 TDIR_RNNLM_RESCORE=`"${MKTEMP}" -d "${tdir}"/thot_rnnlm_rescore_XXXXXX`
-- 
2.43.0


From 283e14583523f1e7b51b3db81b1690d39bbb03e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 072/115] fix: python tools read stdin, and only the end of
 line ends a line

---
 utils/phrase_models/thot_conv_giza_alig_file.py      | 2 +-
 utils/phrase_models/thot_gen_exhaustive_giza_alig.py | 4 ++--
 utils/smt_preproc/thot_categorize.py                 | 6 +++---
 utils/smt_preproc/thot_clean_corpus_ln.py            | 4 ++--
 utils/smt_preproc/thot_decategorize.py               | 8 ++++----
 utils/smt_preproc/thot_detok_translator.py           | 8 ++++----
 utils/smt_preproc/thot_lowercase.py                  | 4 ++--
 utils/smt_preproc/thot_rec_translator.py             | 8 ++++----
 utils/smt_preproc/thot_remove_xml_annotations.py     | 6 +++---
 utils/smt_preproc/thot_tokenize.py                   | 4 ++--
 utils/smt_preproc/thot_train_detok_model.py          | 8 ++++----
 utils/smt_preproc/thot_train_rec_lm.py               | 2 +-
 utils/smt_preproc/thot_train_rec_tm.py               | 2 +-
 utils/stack_dec/thot_calc_wer.py                     | 4 ++--
 utils/stack_dec/thot_get_nblist_segm_info.py         | 6 +++---
 15 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/utils/phrase_models/thot_conv_giza_alig_file.py b/utils/phrase_models/thot_conv_giza_alig_file.py
index 59f56b7..d22cbbb 100644
--- a/utils/phrase_models/thot_conv_giza_alig_file.py
+++ b/utils/phrase_models/thot_conv_giza_alig_file.py
@@ -185,7 +185,7 @@ def main(argv):
     # open files
     if(g_given==True):
         # open file
-        gfile = io.open(gfilename, 'r', encoding="utf-8")
+        gfile = io.open(gfilename, 'r', encoding="utf-8", newline='\n')
 
     # process parameters
     if(f_val==1):
diff --git a/utils/phrase_models/thot_gen_exhaustive_giza_alig.py b/utils/phrase_models/thot_gen_exhaustive_giza_alig.py
index 822879e..2edc63a 100644
--- a/utils/phrase_models/thot_gen_exhaustive_giza_alig.py
+++ b/utils/phrase_models/thot_gen_exhaustive_giza_alig.py
@@ -47,11 +47,11 @@ def main(argv):
     # open files
     if(s_given==True):
         # open file
-        sfile = io.open(srcsents, 'r', encoding="utf-8")
+        sfile = io.open(srcsents, 'r', encoding="utf-8", newline='\n')
 
     if(t_given==True):
         # open file
-        tfile = io.open(trgsents, 'r', encoding="utf-8")
+        tfile = io.open(trgsents, 'r', encoding="utf-8", newline='\n')
 
     # Read parallel files line by line
     for sline, tline in zip(sfile,tfile):
diff --git a/utils/smt_preproc/thot_categorize.py b/utils/smt_preproc/thot_categorize.py
index 9801230..c1e5c24 100644
--- a/utils/smt_preproc/thot_categorize.py
+++ b/utils/smt_preproc/thot_categorize.py
@@ -2,7 +2,7 @@
 # *- python -*
 
 # import modules
-import sys, getopt, codecs
+import io, sys, getopt
 
 import thot_smt_preproc as smtpr
 
@@ -38,10 +38,10 @@ def main(argv):
     # open file
     if(f_given==True):
         # open file
-        file = codecs.open(filename, 'r', "utf-8")
+        file = io.open(filename, 'r', encoding='utf-8', newline='\n')
     else:
         # fallback to stdin
-        file=codecs.getreader("utf-8")(sys.stdin)
+        file=io.open(sys.stdin.fileno(), 'r', encoding='utf-8', newline='\n')
 
     # read file line by line
     for line in file:
diff --git a/utils/smt_preproc/thot_clean_corpus_ln.py b/utils/smt_preproc/thot_clean_corpus_ln.py
index a54e92f..cdf7330 100644
--- a/utils/smt_preproc/thot_clean_corpus_ln.py
+++ b/utils/smt_preproc/thot_clean_corpus_ln.py
@@ -127,11 +127,11 @@ def main(argv):
     # open file
     if(s_given==True):
         # open file
-        srcfile = io.open(srcfn, 'r', encoding="utf-8")
+        srcfile = io.open(srcfn, 'r', encoding="utf-8", newline='\n')
 
     if(t_given==True):
         # open file
-        trgfile = io.open(trgfn, 'r', encoding="utf-8")
+        trgfile = io.open(trgfn, 'r', encoding="utf-8", newline='\n')
 
     # read parallel files line by line
     slen_list=[]
diff --git a/utils/smt_preproc/thot_decategorize.py b/utils/smt_preproc/thot_decategorize.py
index baf7a2e..2c520b4 100644
--- a/utils/smt_preproc/thot_decategorize.py
+++ b/utils/smt_preproc/thot_decategorize.py
@@ -2,7 +2,7 @@
 # *- python -*
 
 # import modules
-import sys, getopt, codecs, itertools
+import io, sys, getopt, itertools
 
 import thot_smt_preproc as smtpr
 
@@ -61,15 +61,15 @@ def main(argv):
     # open files
     if(s_given==True):
         # open file
-        sfile = codecs.open(sfilename, 'r', "utf-8")
+        sfile = io.open(sfilename, 'r', encoding='utf-8', newline='\n')
 
     if(t_given==True):
         # open file
-        tfile = codecs.open(tfilename, 'r', "utf-8")
+        tfile = io.open(tfilename, 'r', encoding='utf-8', newline='\n')
 
     if(i_given==True):
         # open file
-        ifile = codecs.open(hypfilename, 'r', "utf-8")
+        ifile = io.open(hypfilename, 'r', encoding='utf-8', newline='\n')
 
     # print parameters
     print("s is %s" % (sfilename), file=sys.stderr)
diff --git a/utils/smt_preproc/thot_detok_translator.py b/utils/smt_preproc/thot_detok_translator.py
index c8c1ce4..3c35d86 100644
--- a/utils/smt_preproc/thot_detok_translator.py
+++ b/utils/smt_preproc/thot_detok_translator.py
@@ -89,22 +89,22 @@ def main(argv):
     # open files
     if(f_given==True):
         # open file
-        file = io.open(filename, 'r', encoding="utf-8")
+        file = io.open(filename, 'r', encoding="utf-8", newline='\n')
     else:
         # fallback to stdin
-        file = io.open(sys.stdin.fileno(), 'r', encoding='utf-8')
+        file = io.open(sys.stdin.fileno(), 'r', encoding='utf-8', newline='\n')
 
     # load translation model
     tmodel=smtpr.TransModel()
     tmfilename=mpref+".tm"
-    tmfile = io.open(tmfilename, 'r', encoding="utf-8")
+    tmfile = io.open(tmfilename, 'r', encoding="utf-8", newline='\n')
     print("Loading translation model from file",tmfilename,"...", file=sys.stderr)
     tmodel.load(tmfile)
 
     # load language model
     lmodel=smtpr.LangModel()
     lmfilename=mpref+".lm"
-    lmfile = io.open(lmfilename, 'r', encoding="utf-8")
+    lmfile = io.open(lmfilename, 'r', encoding="utf-8", newline='\n')
     print("Loading language model from file",lmfilename,"...", file=sys.stderr)
     lmodel.load(lmfile)
     lmodel.set_interp_prob(ival)
diff --git a/utils/smt_preproc/thot_lowercase.py b/utils/smt_preproc/thot_lowercase.py
index 29ef1ce..23f505d 100644
--- a/utils/smt_preproc/thot_lowercase.py
+++ b/utils/smt_preproc/thot_lowercase.py
@@ -37,10 +37,10 @@ def main(argv):
     # open file
     if(f_given==True):
         # open file
-        file = io.open(filename, 'r', encoding="utf-8")
+        file = io.open(filename, 'r', encoding="utf-8", newline='\n')
     else:
         # fallback to stdin
-        file = io.open(sys.stdin.fileno(), 'r', encoding='utf-8')
+        file = io.open(sys.stdin.fileno(), 'r', encoding='utf-8', newline='\n')
 
     # read file line by line
     for line in file:
diff --git a/utils/smt_preproc/thot_rec_translator.py b/utils/smt_preproc/thot_rec_translator.py
index cc393ac..1467e2e 100644
--- a/utils/smt_preproc/thot_rec_translator.py
+++ b/utils/smt_preproc/thot_rec_translator.py
@@ -89,22 +89,22 @@ def main(argv):
     # open files
     if(f_given==True):
         # open file
-        file = io.open(filename, 'r', encoding="utf-8")
+        file = io.open(filename, 'r', encoding="utf-8", newline='\n')
     else:
         # fallback to stdin
-        file = io.open(sys.stdin.fileno(), 'r', encoding='utf8')
+        file = io.open(sys.stdin.fileno(), 'r', encoding='utf8', newline='\n')
 
     # load translation model
     tmodel=smtpr.TransModel()
     tmfilename=mpref+".tm"
-    tmfile = io.open(tmfilename, 'r', encoding="utf-8")
+    tmfile = io.open(tmfilename, 'r', encoding="utf-8", newline='\n')
     print("Loading translation model from file",tmfilename,"...", file=sys.stderr)
     tmodel.load(tmfile)
 
     # load language model
     lmodel=smtpr.LangModel()
     lmfilename=mpref+".lm"
-    lmfile = io.open(lmfilename, 'r', encoding="utf-8")
+    lmfile = io.open(lmfilename, 'r', encoding="utf-8", newline='\n')
     print("Loading language model from file",lmfilename,"...", file=sys.stderr)
     lmodel.load(lmfile)
     lmodel.set_interp_prob(ival)
diff --git a/utils/smt_preproc/thot_remove_xml_annotations.py b/utils/smt_preproc/thot_remove_xml_annotations.py
index ba94605..3fe37ca 100644
--- a/utils/smt_preproc/thot_remove_xml_annotations.py
+++ b/utils/smt_preproc/thot_remove_xml_annotations.py
@@ -2,7 +2,7 @@
 # *- python -*
 
 # import modules
-import sys, getopt, codecs
+import io, sys, getopt
 
 import thot_smt_preproc as smtpr
 
@@ -39,10 +39,10 @@ def main(argv):
     # open file
     if(f_given==True):
         # open file
-        file = codecs.open(filename, 'r', "utf-8")
+        file = io.open(filename, 'r', encoding='utf-8', newline='\n')
     else:
         # fallback to stdin
-        file=codecs.getreader("utf-8")(sys.stdin)
+        file=io.open(sys.stdin.fileno(), 'r', encoding='utf-8', newline='\n')
 
     # read file line by line
     for line in file:
diff --git a/utils/smt_preproc/thot_tokenize.py b/utils/smt_preproc/thot_tokenize.py
index 1fa1ad8..f9734c7 100644
--- a/utils/smt_preproc/thot_tokenize.py
+++ b/utils/smt_preproc/thot_tokenize.py
@@ -38,10 +38,10 @@ def main(argv):
     # open file
     if(f_given==True):
         # open file
-        file = io.open(filename, 'r', encoding='utf-8')
+        file = io.open(filename, 'r', encoding='utf-8', newline='\n')
     else:
         # fallback to stdin
-        file = io.open(sys.stdin.fileno(), 'r', encoding='utf-8')
+        file = io.open(sys.stdin.fileno(), 'r', encoding='utf-8', newline='\n')
 
     # read file line by line
     for line in file:
diff --git a/utils/smt_preproc/thot_train_detok_model.py b/utils/smt_preproc/thot_train_detok_model.py
index 9583708..097d256 100644
--- a/utils/smt_preproc/thot_train_detok_model.py
+++ b/utils/smt_preproc/thot_train_detok_model.py
@@ -84,11 +84,11 @@ def main(argv):
     # open files
     if(r_given==True):
         # open file
-        rfile = io.open(rfilename, 'r', encoding="utf-8")
+        rfile = io.open(rfilename, 'r', encoding="utf-8", newline='\n')
 
     if(t_given==True):
         # open file
-        tfile = io.open(tfilename, 'r', encoding="utf-8")
+        tfile = io.open(tfilename, 'r', encoding="utf-8", newline='\n')
 
     # train translation model
     print("Training translation model...", file=sys.stderr)
@@ -104,11 +104,11 @@ def main(argv):
 
     # reopen files
     rfile.close()
-    rfile = io.open(rfilename, 'r', encoding="utf-8")
+    rfile = io.open(rfilename, 'r', encoding="utf-8", newline='\n')
 
     if(t_given==True):
         tfile.close()
-        tfile = io.open(tfilename, 'r', encoding="utf-8")
+        tfile = io.open(tfilename, 'r', encoding="utf-8", newline='\n')
 
     # train language model
     print("Training language model...", file=sys.stderr)
diff --git a/utils/smt_preproc/thot_train_rec_lm.py b/utils/smt_preproc/thot_train_rec_lm.py
index 62a0426..914b2a8 100644
--- a/utils/smt_preproc/thot_train_rec_lm.py
+++ b/utils/smt_preproc/thot_train_rec_lm.py
@@ -71,7 +71,7 @@ def main(argv):
     # open files
     if(r_given==True):
         # open file
-        rfile = io.open(rfilename, 'r', encoding="utf-8")
+        rfile = io.open(rfilename, 'r', encoding="utf-8", newline='\n')
 
     # train language model
     print("Training language model...", file=sys.stderr)
diff --git a/utils/smt_preproc/thot_train_rec_tm.py b/utils/smt_preproc/thot_train_rec_tm.py
index 7ccb64d..4791db4 100644
--- a/utils/smt_preproc/thot_train_rec_tm.py
+++ b/utils/smt_preproc/thot_train_rec_tm.py
@@ -65,7 +65,7 @@ def main(argv):
     # open files
     if(r_given==True):
         # open file
-        rfile = io.open(rfilename, 'r', encoding="utf-8")
+        rfile = io.open(rfilename, 'r', encoding="utf-8", newline='\n')
 
     # train translation model
     print("Training translation model...", file=sys.stderr)
diff --git a/utils/stack_dec/thot_calc_wer.py b/utils/stack_dec/thot_calc_wer.py
index b3142c0..30a32cd 100644
--- a/utils/stack_dec/thot_calc_wer.py
+++ b/utils/stack_dec/thot_calc_wer.py
@@ -80,11 +80,11 @@ def main(argv):
     # open files
     if(r_given==True):
         # open file
-        rfile = io.open(refsents, 'r', encoding="utf-8")
+        rfile = io.open(refsents, 'r', encoding="utf-8", newline='\n')
 
     if(t_given==True):
         # open file
-        tfile = io.open(syssents, 'r', encoding="utf-8")
+        tfile = io.open(syssents, 'r', encoding="utf-8", newline='\n')
 
     # Read parallel files line by line
     running_words=0.0
diff --git a/utils/stack_dec/thot_get_nblist_segm_info.py b/utils/stack_dec/thot_get_nblist_segm_info.py
index ed9b3f1..e24aa5a 100644
--- a/utils/stack_dec/thot_get_nblist_segm_info.py
+++ b/utils/stack_dec/thot_get_nblist_segm_info.py
@@ -142,12 +142,12 @@ def main(argv):
     # open files
     if(n_given==True):
         # open file
-        nblfile = io.open(nblist, 'r', encoding="utf-8")
+        nblfile = io.open(nblist, 'r', encoding="utf-8", newline='\n')
 
     if(p_given==True):
         # open files
-        wgfile = io.open(prefix+".wg", 'r', encoding="utf-8")
-        idxfile = io.open(prefix+".idx", 'r', encoding="utf-8")
+        wgfile = io.open(prefix+".wg", 'r', encoding="utf-8", newline='\n')
+        idxfile = io.open(prefix+".idx", 'r', encoding="utf-8", newline='\n')
 
     # load word-graph information
     wginfo=load_wg_info(wgfile)
-- 
2.43.0


From 1a2c35a1d86df604150d98039e84f4ca44abfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 073/115] fix: detokenization and recasing work with Python 3

---
 utils/smt_preproc/thot_smt_preproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 9faaf67..bed18ec 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -677,8 +677,8 @@ class Hypothesis:
         self.score=0
         self.data=BfsHypdata()
 
-    def __cmp__(self, other):
-        return cmp(other.score,self.score)
+    def __lt__(self, other):
+        return other.score < self.score
 
 ##################################################
 class PriorityQueue:
-- 
2.43.0


From 3b51f653458ddd0cca19a410fe23451c21d21eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 074/115] fix: loaded counts of detokenization and recasing
 models are not set to one

---
 utils/smt_preproc/thot_smt_preproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index bed18ec..864eebd 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -58,7 +58,7 @@ class TransModel:
                 self.st_counts[src_words][trg_words]=self.st_counts[src_words][trg_words]+c
                 self.s_counts[src_words]=self.s_counts[src_words]+c
             else:
-                self.st_counts[src_words][trg_words]=1
+                self.st_counts[src_words][trg_words]=c
                 self.s_counts[src_words]=self.s_counts[src_words]+c
         else:
             self.st_counts[src_words]={}
-- 
2.43.0


From 708122a3ca0a704314588368772112ebb91368c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 075/115] fix: thot_gen_partition rejects sizes that would make
 the test corpus overlap with the development corpus

---
 utils/exper/thot_gen_partition.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exper/thot_gen_partition.sh b/utils/exper/thot_gen_partition.sh
index c197362..100baea 100644
--- a/utils/exper/thot_gen_partition.sh
+++ b/utils/exper/thot_gen_partition.sh
@@ -112,7 +112,7 @@ if [ ${n_given} -eq 0 ]; then
     exit 1
 fi
 
-if [ `expr 2 \* ${dtsize}` -lt ${e_given} ]; then
+if [ `expr 2 \* ${dtsize}` -gt ${esize} ]; then
     echo "Error! 2 times -n option should be lower than the value of -e" >&2
     exit 1    
 fi
-- 
2.43.0


From d8e26c187bdfe05202f28a5c4b59bbcb4c55558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 076/115] fix: thot_shuffle does not replace empty lines by
 their number

---
 utils/nlp_common/thot_shuffle.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nlp_common/thot_shuffle.sh b/utils/nlp_common/thot_shuffle.sh
index 3126943..0985431 100644
--- a/utils/nlp_common/thot_shuffle.sh
+++ b/utils/nlp_common/thot_shuffle.sh
@@ -12,7 +12,7 @@ shuffle()
 
     # Shuffle file
     "$AWK" -v seed=${_seed} 'BEGIN{srand(seed)}{printf"%f %d %s\n",rand(),NR,$0}' ${_file} \
-        | LC_ALL=C "$SORT" -k1n -k2n -T "${_tdir}" | "$AWK" '{for(i=3;i<NF;++i) printf"%s ",$i; printf"%s\n",$NF}'
+        | LC_ALL=C "$SORT" -k1n -k2n -T "${_tdir}" | "$AWK" '{sub(/^[^ ]+ [^ ]+ /,""); printf"%s\n",$0}'
 }
 
 thot_shuffle_alt()
-- 
2.43.0


From ac4f50fb5184dacc6280db100f72a81b423f5be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 077/115] fix: sort is given the directory for its temporary
 files

---
 utils/smt_preproc/thot_train_rec_lm_mr.sh      | 6 +++---
 utils/sw_models/thot_merge_text_ihmmatable.sh  | 6 +++---
 utils/sw_models/thot_merge_text_iibm2atable.sh | 6 +++---
 utils/sw_models/thot_merge_text_ilextable.sh   | 6 +++---
 utils/sw_models/thot_prune_text_ilextable.sh   | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/utils/smt_preproc/thot_train_rec_lm_mr.sh b/utils/smt_preproc/thot_train_rec_lm_mr.sh
index 837761f..96c8a3d 100644
--- a/utils/smt_preproc/thot_train_rec_lm_mr.sh
+++ b/utils/smt_preproc/thot_train_rec_lm_mr.sh
@@ -9,13 +9,13 @@ sort_counts()
 {
     # Set sort command options
     if test ${sortT} = "yes"; then
-        SORT_TMP="-T $TMP"
+        SORT_TMP="$TMP"
     else
-        SORT_TMP=""
+        SORT_TMP="/tmp"
     fi
 
     "${AWK}" '{printf"%d %s\n",NF,$0}' | \
-        LC_ALL=C "${SORT}" "${SORT_TMP}" -t " " ${sortpars} | "${AWK}" '{for(i=2;i<=NF-1;++i)printf"%s ",$i; printf"%s\n",$NF}'
+        LC_ALL=C "${SORT}" -T "${SORT_TMP}" -t " " ${sortpars} | "${AWK}" '{for(i=2;i<=NF-1;++i)printf"%s ",$i; printf"%s\n",$NF}'
 }
 
 merge_ngram_counts()
diff --git a/utils/sw_models/thot_merge_text_ihmmatable.sh b/utils/sw_models/thot_merge_text_ihmmatable.sh
index 1b121a8..a30e147 100644
--- a/utils/sw_models/thot_merge_text_ihmmatable.sh
+++ b/utils/sw_models/thot_merge_text_ihmmatable.sh
@@ -136,15 +136,15 @@ else
     done
 
     if test ${sortT} = "yes"; then
-        SORT_TMP="-T $tmpdir"
+        SORT_TMP="$tmpdir"
     else
-        SORT_TMP=""
+        SORT_TMP="/tmp"
     fi
 
     # Merge table counts
     if [ ${ns_given} -eq 1 ]; then
         cat "$table" | merge_sorted_counts
     else
-        cat "$table" | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n -k3n | merge_sorted_counts
+        cat "$table" | LC_ALL=C "${SORT}" -T "${SORT_TMP}" ${sortpars} -k1n -k2n -k3n | merge_sorted_counts
     fi
 fi
diff --git a/utils/sw_models/thot_merge_text_iibm2atable.sh b/utils/sw_models/thot_merge_text_iibm2atable.sh
index 98ef9c0..8f9c88d 100644
--- a/utils/sw_models/thot_merge_text_iibm2atable.sh
+++ b/utils/sw_models/thot_merge_text_iibm2atable.sh
@@ -136,15 +136,15 @@ else
     done
 
     if test ${sortT} = "yes"; then
-        SORT_TMP="-T $tmpdir"
+        SORT_TMP="$tmpdir"
     else
-        SORT_TMP=""
+        SORT_TMP="/tmp"
     fi
 
     # Merge table counts
     if [ ${ns_given} -eq 1 ]; then
         cat "$table" | merge_sorted_counts
     else
-        cat "$table" | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n -k3n -k4n | merge_sorted_counts
+        cat "$table" | LC_ALL=C "${SORT}" -T "${SORT_TMP}" ${sortpars} -k1n -k2n -k3n -k4n | merge_sorted_counts
     fi
 fi
diff --git a/utils/sw_models/thot_merge_text_ilextable.sh b/utils/sw_models/thot_merge_text_ilextable.sh
index 6a7e9d2..d006918 100644
--- a/utils/sw_models/thot_merge_text_ilextable.sh
+++ b/utils/sw_models/thot_merge_text_ilextable.sh
@@ -136,15 +136,15 @@ else
     done
 
     if test ${sortT} = "yes"; then
-        SORT_TMP="-T $tmpdir"
+        SORT_TMP="$tmpdir"
     else
-        SORT_TMP=""
+        SORT_TMP="/tmp"
     fi
 
     # Merge table counts
     if [ ${ns_given} -eq 1 ]; then
         cat "$table" | merge_sorted_counts
     else
-        cat "$table" | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n | merge_sorted_counts
+        cat "$table" | LC_ALL=C "${SORT}" -T "${SORT_TMP}" ${sortpars} -k1n -k2n | merge_sorted_counts
     fi
 fi
diff --git a/utils/sw_models/thot_prune_text_ilextable.sh b/utils/sw_models/thot_prune_text_ilextable.sh
index 4a8736e..d6c4c5d 100644
--- a/utils/sw_models/thot_prune_text_ilextable.sh
+++ b/utils/sw_models/thot_prune_text_ilextable.sh
@@ -143,9 +143,9 @@ else
     done
 
     if test ${sortT} = "yes"; then
-        SORT_TMP="-T $tmpdir"
+        SORT_TMP="$tmpdir"
     else
-        SORT_TMP=""
+        SORT_TMP="/tmp"
     fi
 
     # Check parameters
@@ -155,5 +155,5 @@ else
     fi
 
     # Prune table
-    cat "$table" | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k3gr | prune_sorted_table
+    cat "$table" | LC_ALL=C "${SORT}" -T "${SORT_TMP}" ${sortpars} -k1n -k3gr | prune_sorted_table
 fi
-- 
2.43.0


From 6342ba4e519cdc64946beddc0d46f82b74f4ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 078/115] fix: counts of n-grams that are equal numbers are not
 merged for the recasing model

---
 utils/smt_preproc/thot_train_rec_lm_mr.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/smt_preproc/thot_train_rec_lm_mr.sh b/utils/smt_preproc/thot_train_rec_lm_mr.sh
index 96c8a3d..f9aeb65 100644
--- a/utils/smt_preproc/thot_train_rec_lm_mr.sh
+++ b/utils/smt_preproc/thot_train_rec_lm_mr.sh
@@ -32,7 +32,7 @@ merge_ngram_counts()
             for(i=1;i<NF;++i)
               if(i==1) ngram=$i
               else ngram=ngram" "$i
-            if(ngram==prev_ngram)
+            if((ngram"")==(prev_ngram""))
               count+=$NF
             else
             {
@@ -44,7 +44,7 @@ merge_ngram_counts()
            }
           }
        END{
-           printf"%s %d\n",ngram,count
+           if(prev_ngram!="") printf"%s %d\n",prev_ngram,count
           }'
 }
 
-- 
2.43.0


From 39b707264398acff083e8bc16c438e75d67ba973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 079/115] fix: thot_decategorize leaves target words outside of
 the segmentation as they are

---
 utils/smt_preproc/thot_smt_preproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 864eebd..704dac1 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -1029,6 +1029,7 @@ def decategorize_word(trgpos,src_word_array,trg_word_array,srcsegms,trgcuts):
         return trg_word_array[i]
     else:
         # Scan target cuts
+        trgleft=None
         for k in range(len(trgcuts)):
             if(k==0):
                 if(trgpos+1<=trgcuts[k]):
@@ -1041,7 +1042,7 @@ def decategorize_word(trgpos,src_word_array,trg_word_array,srcsegms,trgcuts):
                     trgright=trgcuts[k]-1
                     break
         # Check if trgpos'th word was assigned to one cut
-        if(k<len(trgcuts)):
+        if(trgleft!=None):
             # Obtain source segment limits
             srcleft=srcsegms[k][0]-1
             srcright=srcsegms[k][1]-1
-- 
2.43.0


From bbf537975eb66f7c6e8c47d1df90b0ad4d2bb377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 080/115] fix: the initial state of detokenization and recasing
 is not recombined with the one of the first word

---
 utils/smt_preproc/thot_smt_preproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 704dac1..778e17a 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -294,7 +294,7 @@ class TransModel:
     #####
     def get_mon_hyp_state(self,hyp):
         if(len(hyp.data.coverage)==0):
-            return 0
+            return -1
         else:
             return hyp.data.coverage[len(hyp.data.coverage)-1]
 
-- 
2.43.0


From 53fa8c2a4bb084f1530ff124adab1211eee12a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:24 +0000
Subject: [PATCH 081/115] fix: sentences of blanks are not used for online
 training

---
 src/stack_dec/StdFeatureHandler.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stack_dec/StdFeatureHandler.cc b/src/stack_dec/StdFeatureHandler.cc
index 0a381bf..57503e0 100644
--- a/src/stack_dec/StdFeatureHandler.cc
+++ b/src/stack_dec/StdFeatureHandler.cc
@@ -242,6 +242,13 @@ int StdFeatureHandler::incrTrainFeatsSentPair(OnlineTrainingPars onlineTrainingP
   std::vector<std::string> srcSentStrVec=StrProcUtils::stringToStringVector(srcSent);
   std::vector<std::string> refSentStrVec=StrProcUtils::stringToStringVector(refSent);
 
+      // Check if input sentences contain words
+  if(srcSentStrVec.empty() || refSentStrVec.empty())
+  {
+    std::cerr<<"Error: cannot process empty input sentences"<<std::endl;
+    return THOT_ERROR;
+  }
+
       // Train language model
   int ret=trainLangModel(langModelsInfo.lModelPtrVec[0],onlineTrainingPars.learnStepSize,refSentStrVec,verbose);
   if(ret==THOT_ERROR)
-- 
2.43.0


From 5e78b8e88c688c0f9b64dbc7316182a1146b4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:24 +0000
Subject: [PATCH 082/115] fix: online training without interlaced iterations
 does not divide by zero

---
 src/stack_dec/StdFeatureHandler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stack_dec/StdFeatureHandler.cc b/src/stack_dec/StdFeatureHandler.cc
index 57503e0..b1a6118 100644
--- a/src/stack_dec/StdFeatureHandler.cc
+++ b/src/stack_dec/StdFeatureHandler.cc
@@ -355,6 +355,8 @@ int StdFeatureHandler::trainAligModel(BasePhraseModel* invPbModelPtr,
   }
 
       // Discard unnecessary phrase-based model sufficient statistics
+  if(onlineTrainingPars.E_par==0)
+    return ret;
   int last_n=curr_sample-((onlineTrainingPars.E_par-1)*(onlineTrainingPars.R_par/onlineTrainingPars.E_par));
   if(last_n>=0)
   {
-- 
2.43.0


From 855d4d868700e18b1d819ae100fdc2390caca8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 083/115] fix: phrase pairs of a sample are kept until its last
 interlaced training iteration

---
 src/stack_dec/StdFeatureHandler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/StdFeatureHandler.cc b/src/stack_dec/StdFeatureHandler.cc
index b1a6118..dde05cb 100644
--- a/src/stack_dec/StdFeatureHandler.cc
+++ b/src/stack_dec/StdFeatureHandler.cc
@@ -357,7 +357,7 @@ int StdFeatureHandler::trainAligModel(BasePhraseModel* invPbModelPtr,
       // Discard unnecessary phrase-based model sufficient statistics
   if(onlineTrainingPars.E_par==0)
     return ret;
-  int last_n=curr_sample-((onlineTrainingPars.E_par-1)*(onlineTrainingPars.R_par/onlineTrainingPars.E_par));
+  int last_n=oldest_sample+(onlineTrainingPars.R_par/onlineTrainingPars.E_par);
   if(last_n>=0)
   {
     int mapped_last_n=map_n_am_suff_stats(last_n);
-- 
2.43.0


From fee740291605b261fa0e8924ed1513c34c14fa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 084/115] fix: thot_lm_train gathers the word predictor files
 of its models

---
 utils/exper/thot_lm_train.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exper/thot_lm_train.sh b/utils/exper/thot_lm_train.sh
index 2fe49e1..c3abbea 100644
--- a/utils/exper/thot_lm_train.sh
+++ b/utils/exper/thot_lm_train.sh
@@ -118,7 +118,7 @@ generate_global_word_predictor_file()
     # Gather current word predictor files
     nlines_wp_file=100000
     tmpfile1=`"${MKTEMP}"`
-    for file in "${outd}/main/*.wp" "${outd}/additional*/*.wp" ; do
+    for file in "${outd}"/main/*.wp "${outd}"/additional*/*.wp ; do
         if [ -f "$file" ]; then
             cat "$file" >> "$tmpfile1" || return 1
         fi
-- 
2.43.0


From 2bb7f17574ec30d2552e402ef8c006724c912c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 085/115] fix: thot_tm_train passes on the -g, -af, -cpr, -np
 and -ao options

---
 utils/exper/thot_tm_train.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/exper/thot_tm_train.sh b/utils/exper/thot_tm_train.sh
index 382cdfe..c18ce4e 100644
--- a/utils/exper/thot_tm_train.sh
+++ b/utils/exper/thot_tm_train.sh
@@ -258,7 +258,7 @@ while [ $# -ne 0 ]; do
               if [ $# -ne 0 ]; then
                   gfile=$1
                   g_given=1
-                  g_opt="-g ${gfile}"
+                  g_opt="-g"
               fi
               ;;
         "-to") shift
@@ -447,9 +447,9 @@ mkdir -p "${outd}/${outsubdir}" || { echo "Error! cannot create output directory
 prefix="${outd}/${outsubdir}/src_trg"
 relative_prefix="${outsubdir}/src_trg"
 "${bindir}"/thot_pbs_gen_batch_phr_model -pr ${pr_val} \
-    -s "$tcorpus" -t "$scorpus" -o $prefix "${g_opt}" -nit $niters "${af_opt}" "${cpr_opt}" \
-    "${np_opt}" -m ${m_val} "${ao_opt}" -to ${to_val} "${dict_opt}" "${unk_opt}" \
-    "${qs_opt}" "${qs_par}" -T "$tdir" -sdir "$sdir" ${debug_opt} || exit 1
+    -s "$tcorpus" -t "$scorpus" -o "$prefix" ${g_opt} "${gfile}" -nit $niters ${af_opt} ${cpr_opt} \
+    ${np_opt} -m ${m_val} ${ao_opt} -to ${to_val} ${dict_opt} ${unk_opt} \
+    ${qs_opt} "${qs_par}" -T "$tdir" -sdir "$sdir" ${debug_opt} || exit 1
 
 # Process -bdb option if given
 if [ ! -z "${LDB_CXX}" -a ${bdb_given} -eq 1 ]; then
-- 
2.43.0


From d4560eb4197984af6a53276819593ec8f90d1145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 086/115] fix: directories of models are linked again without
 writing into the linked directory

---
 utils/exper/thot_prepare_sys_for_test.sh | 4 ++--
 utils/exper/thot_smt_tune.sh             | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/exper/thot_prepare_sys_for_test.sh b/utils/exper/thot_prepare_sys_for_test.sh
index 1cf65a8..d880a88 100644
--- a/utils/exper/thot_prepare_sys_for_test.sh
+++ b/utils/exper/thot_prepare_sys_for_test.sh
@@ -137,7 +137,7 @@ process_files_for_individual_lm()
         if [ -d "$file" ]; then
             # create symbolic links for directories
             basefname=`"$BASENAME" "$file"`
-            "$LN" -s "$file" "${outd}/lm/${_lm_status}/${basefname}" || { echo "Error while preparing language model files" >&2 ; return 1; }
+            "$LN" -sfn "`get_absolute_path "$file"`" "${outd}/lm/${_lm_status}/${basefname}" || { echo "Error while preparing language model files" >&2 ; return 1; }
         fi
     done
 
@@ -244,7 +244,7 @@ process_files_for_individual_tm()
         if [ -d "$file" ]; then
             # create symbolic links for directories
             basefname=`"$BASENAME" "$file"`
-            "$LN" -s "$file" "${outd}/tm/${_tm_status}/${basefname}" || { echo "Error while preparing translation model files" >&2 ; return 1; }
+            "$LN" -sfn "`get_absolute_path "$file"`" "${outd}/tm/${_tm_status}/${basefname}" || { echo "Error while preparing translation model files" >&2 ; return 1; }
         fi
     done
 
diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index eaab40d..5765c64 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -150,7 +150,7 @@ echo ${_lmfile}
         if [ -d "$file" ]; then
             # create symbolic links for directories
             basefname=`"$BASENAME" "$file"`
-            "$LN" -s "$file" "${outd}/lm/${_lm_status}/${basefname}" || { echo "Error while preparing language model files" >&2 ; return 1; }
+            "$LN" -sfn "`get_absolute_path "$file"`" "${outd}/lm/${_lm_status}/${basefname}" || { echo "Error while preparing language model files" >&2 ; return 1; }
         fi
     done
 
@@ -311,7 +311,7 @@ process_files_for_individual_tm_dev()
         if [ -d "$file" ]; then
             # create symbolic links for directories
             basefname=`$BASENAME "$file"`
-            "$LN" -s "$file" "${outd}/tm_dev/${_tm_status}/${basefname}" || { echo "Error while preparing translation model files" >&2 ; return 1; }
+            "$LN" -sfn "`get_absolute_path "$file"`" "${outd}/tm_dev/${_tm_status}/${basefname}" || { echo "Error while preparing translation model files" >&2 ; return 1; }
         fi
     done
 
@@ -416,7 +416,7 @@ process_files_for_individual_tm()
         if [ -d "$file" ]; then
             # create symbolic links for directories
             basefname=`"$BASENAME" "$file"`
-            "$LN" -s "$file" "${outd}/tm/${_tm_status}/${basefname}" || { echo "Error while preparing translation model files" >&2 ; return 1; }
+            "$LN" -sfn "`get_absolute_path "$file"`" "${outd}/tm/${_tm_status}/${basefname}" || { echo "Error while preparing translation model files" >&2 ; return 1; }
         fi
     done
 
-- 
2.43.0


From 6a6cfe29602171491c2a57e6e29270b4065267e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 087/115] fix: language models given without descriptor can be
 tuned and prepared

---
 utils/exper/thot_prepare_sys_for_test.sh | 2 +-
 utils/exper/thot_smt_tune.sh             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/exper/thot_prepare_sys_for_test.sh b/utils/exper/thot_prepare_sys_for_test.sh
index d880a88..9fa8ff6 100644
--- a/utils/exper/thot_prepare_sys_for_test.sh
+++ b/utils/exper/thot_prepare_sys_for_test.sh
@@ -198,7 +198,7 @@ create_lm_files()
         echo "thot lm descriptor" > "${outd}/lm/lm_desc"
 
         # Create files for individual language model
-        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so ${lmfile}" "main" || return 1;
+        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so" "${lmfile}" "main" || return 1;
 
         # Obtain new lm file name
         baselmfile=`basename "$lmfile"`
diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index 5765c64..47ee277 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -216,7 +216,7 @@ create_lm_files()
         echo "thot lm descriptor" > "${outd}/lm/lm_desc"
 
         # Create files for individual language model
-        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so ${lmfile}" "main" || return 1
+        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so" "${lmfile}" "main" || return 1
 
         # Obtain new lm file name
         baselmfile=`basename "$lmfile"`
-- 
2.43.0


From f4dee8a0bd652a5fcc6197ed8e22ef30956b0cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 088/115] fix: tuned and prepared configurations name the
 descriptors that were written

---
 utils/exper/thot_prepare_sys_for_test.sh |  8 ++++----
 utils/exper/thot_smt_tune.sh             | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/utils/exper/thot_prepare_sys_for_test.sh b/utils/exper/thot_prepare_sys_for_test.sh
index 9fa8ff6..d51754a 100644
--- a/utils/exper/thot_prepare_sys_for_test.sh
+++ b/utils/exper/thot_prepare_sys_for_test.sh
@@ -185,14 +185,14 @@ create_lm_files()
         done
 
         # Copy weights for lm descriptor
-        cp "${lmfile}.weights" "${outd}/lm/"
+        cp "${lmfile}.weights" "${outd}/lm/lm_desc.weights"
 
         # Copy wp file for lm descriptor
-        cp "${lmfile}.wp" "${outd}/lm/"
+        cp "${lmfile}.wp" "${outd}/lm/lm_desc.wp"
 
         # Obtain new file name for lm descriptor
         baselmfile=`basename "$lmfile"`
-        newlmfile="${outd}/lm/${baselmfile}"
+        newlmfile="${outd}/lm/lm_desc"
     else
         # Create descriptor
         echo "thot lm descriptor" > "${outd}/lm/lm_desc"
@@ -293,7 +293,7 @@ create_tm_files()
 
         # Obtain new file name for tm descriptor
         basetmfile=`basename "$tmfile"`
-        newtmfile="${outd}/tm/${basetmfile}"
+        newtmfile="${outd}/tm/tm_desc"
     else
         # Create descriptor
         echo "thot tm descriptor" > "${outd}/tm/tm_desc"
diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index 47ee277..b3872b5 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -203,14 +203,14 @@ create_lm_files()
         done
 
         # Copy weights for lm descriptor
-        cp "${lmfile}.weights" "${outd}/lm/"
+        cp "${lmfile}.weights" "${outd}/lm/lm_desc.weights"
 
         # Copy wp file for lm descriptor
-        cp "${lmfile}.wp" "${outd}/lm/"
+        cp "${lmfile}.wp" "${outd}/lm/lm_desc.wp"
 
         # Obtain new file name for lm descriptor
         baselmfile=`basename "$lmfile"`
-        newlmfile="${outd}/lm/${baselmfile}"
+        newlmfile="${outd}/lm/lm_desc"
     else
         # Create descriptor
         echo "thot lm descriptor" > "${outd}/lm/lm_desc"
@@ -367,7 +367,7 @@ create_tm_dev_files()
 
         # Obtain new file name for tm descriptor
         basetmdevfile=`basename "$tmfile"`
-        newtmdevfile="${outd}/tm_dev/${basetmfile}"
+        newtmdevfile="${outd}/tm_dev/tm_desc"
     else
         # Create descriptor
         echo "thot tm descriptor" > "${outd}/tm_dev/tm_desc"
@@ -465,7 +465,7 @@ create_tm_files()
 
         # Obtain new file name for tm descriptor
         basetmfile=`basename "$tmfile"`
-        newtmfile="${outd}/tm/${basetmfile}"
+        newtmfile="${outd}/tm/tm_desc"
     else
         # Create descriptor
         echo "thot tm descriptor" > "${outd}/tm/tm_desc"
-- 
2.43.0


From 6b68a798a91781dcbc279022c7601abb8d450fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 089/115] fix: the models of a configuration are not taken from
 its comments

---
 utils/exper/thot_smt_tune.sh         | 2 +-
 utils/nlp_common/thot_general_lib.sh | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index b3872b5..473188a 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -332,7 +332,7 @@ list_tm_entry_info()
 create_tm_dev_files()
 {
     # Obtain path of tm file
-    tmfile=`"$GREP" "\-tm " $cmdline_cfg | $AWK '{printf"%s",$2}'`
+    tmfile="`get_tm_from_cfgfile "$cmdline_cfg"`"
 
     # Check that tm file could be obtained
     if [ -z "$tmfile" ]; then
diff --git a/utils/nlp_common/thot_general_lib.sh b/utils/nlp_common/thot_general_lib.sh
index 354fb17..8e67f7c 100644
--- a/utils/nlp_common/thot_general_lib.sh
+++ b/utils/nlp_common/thot_general_lib.sh
@@ -35,7 +35,7 @@ get_lm_from_cfgfile()
 {
     local cmdline_cfg=$1
     local lm
-    lm="`"$GREP" "\-lm " "$cmdline_cfg" | "$AWK" '{printf"%s",$2}'`"
+    lm="`"$AWK" '$1=="-lm"{printf"%s",$2; exit}' "$cmdline_cfg"`"
     echo "$lm"
 }
 
@@ -43,6 +43,6 @@ get_tm_from_cfgfile()
 {
     local cmdline_cfg=$1
     local tm
-    tm="`"$GREP" "\-tm " "$cmdline_cfg" | "$AWK" '{printf"%s",$2}'`"
+    tm="`"$AWK" '$1=="-tm"{printf"%s",$2; exit}' "$cmdline_cfg"`"
     echo "$tm"
 }
-- 
2.43.0


From a5dc4ab27ae072244bcf2b595c3312d8fe587366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 090/115] fix: remove debug output of thot_smt_tune

---
 utils/exper/thot_smt_tune.sh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index 473188a..774d98a 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -128,7 +128,6 @@ process_files_for_individual_lm()
     if [ ! -d "${outd}/lm/${_lm_status}" ]; then
         mkdir "${outd}/lm/${_lm_status}" || { echo "Error! cannot create directory for language model" >&2; return 1; }
     fi
-echo ${_lmfile}
     # Check availability of lm files
     nlines=`ls "${_lmfile}"* 2>/dev/null | "$WC" -l`
     if [ $nlines -eq 0 ]; then
-- 
2.43.0


From 954f2f19178604226f5f10aa87e17e70fc18e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:24 +0000
Subject: [PATCH 091/115] fix: thot_smt_tune writes the tuned weights whether
 or not the configuration has a -tmw line

---
 utils/exper/thot_smt_tune.sh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index 774d98a..360959f 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -636,12 +636,14 @@ create_cfg_file_for_tuned_sys()
     cat "${outd}/tune_loglin.cfg" | "$SED" s'@/tm_dev/@/tm/@'| \
         "$AWK" -v smtweights="$smtweights" \
                             '{
-                               if($1=="#" && $2=="-tmw")
+                               if($1=="-tmw" || ($1=="#" && $2=="-tmw"))
                                {
-                                 printf"-tmw %s\n",smtweights
+                                 if(!done) printf"-tmw %s\n",smtweights
+                                 done=1
                                }
                                else printf "%s\n",$0
-                             }'
+                             }
+                             END{ if(!done) printf"-tmw %s\n",smtweights }'
 }
 
 ########
-- 
2.43.0


From 5670169eb77e5adb84c4b532e77fecccbb712764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:38 +0000
Subject: [PATCH 092/115] fix: filtered phrase tables keep the entries of the
 unknown word

---
 utils/exper/thot_prepare_sys_for_test.sh |  5 ++++-
 utils/exper/thot_smt_tune.sh             | 11 ++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/utils/exper/thot_prepare_sys_for_test.sh b/utils/exper/thot_prepare_sys_for_test.sh
index d51754a..1c66d3a 100644
--- a/utils/exper/thot_prepare_sys_for_test.sh
+++ b/utils/exper/thot_prepare_sys_for_test.sh
@@ -311,7 +311,10 @@ create_tm_files()
 get_srcsents_from_test()
 {
     tcorpus_wo_metadata=${outd}/test_corpus_without_metadata
-    "${bindir}"/thot_get_srcsents_from_metadata -f "${tcorpus}" > "${tcorpus_wo_metadata}" 2>/dev/null
+    "${bindir}"/thot_get_srcsents_from_metadata -f "${tcorpus}" > "${tcorpus_wo_metadata}" 2>/dev/null || return 1
+
+    # Keep the entries for the unknown word when filtering
+    echo "UNKNOWN_WORD" >> "${tcorpus_wo_metadata}"
 }
 
 ########
diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index 360959f..be0e81e 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -506,10 +506,10 @@ filter_ttables()
             curr_tmfile=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
             curr_tmfile_dirname=`"$DIRNAME" $curr_tmfile`
-            filter_ttable "${tmdesc_dirname}/${curr_tmfile}" "${scorpus_wo_metadata}" "${outd}/tm_dev/${curr_tmfile_dirname}"
+            filter_ttable "${tmdesc_dirname}/${curr_tmfile}" "${scorpus_for_filtering}" "${outd}/tm_dev/${curr_tmfile_dirname}"
         done
     else
-        filter_ttable "${tmfile}" "${scorpus_wo_metadata}" "${outd}/tm_dev/main"
+        filter_ttable "${tmfile}" "${scorpus_for_filtering}" "${outd}/tm_dev/main"
     fi
 }
 
@@ -669,7 +669,12 @@ tune_tm()
 
     # Extract source sentences from file
     scorpus_wo_metadata="${outd}"/src_corpus_without_metadata
-    "${bindir}"/thot_get_srcsents_from_metadata -f "${scorpus}" > "${scorpus_wo_metadata}" 2>/dev/null
+    "${bindir}"/thot_get_srcsents_from_metadata -f "${scorpus}" > "${scorpus_wo_metadata}" 2>/dev/null || return 1
+
+    # Create corpus to filter the translation table (entries for the
+    # unknown word are kept)
+    scorpus_for_filtering="${outd}"/src_corpus_for_filtering
+    { cat "${scorpus_wo_metadata}" ; echo "UNKNOWN_WORD" ; } > "${scorpus_for_filtering}" || return 1
 
     # Filter translation table
     echo "" >&2
-- 
2.43.0


From 309526eb237e92a6ec262e1eb9fee8b0d9008f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:13 +0000
Subject: [PATCH 093/115] fix: thot_decoder counts a last line without end of
 line

---
 utils/stack_dec/thot_decoder.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stack_dec/thot_decoder.sh b/utils/stack_dec/thot_decoder.sh
index 3515221..c864c46 100644
--- a/utils/stack_dec/thot_decoder.sh
+++ b/utils/stack_dec/thot_decoder.sh
@@ -413,7 +413,7 @@ echo "">> "$SDIR"/log
 # process input
 
 # fragment input
-input_size=`"$WC" ${sents} 2>/dev/null | "${AWK}" '{printf"%d",$(1)}'`
+input_size=`"${AWK}" 'END{printf"%d",NR}' "${sents}" 2>/dev/null`
 if [ ${input_size} -eq 0 ]; then
     echo "Error: input file ${sents} is empty" >&2
     exit 1
-- 
2.43.0


From 8941b88a1a4227f283efa3a47e3afdc9092fa19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:13 +0000
Subject: [PATCH 094/115] fix: thot_auto_smt uses temporary files of its own

---
 utils/exper/thot_auto_smt.sh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/utils/exper/thot_auto_smt.sh b/utils/exper/thot_auto_smt.sh
index bad9d3f..2b7b42c 100644
--- a/utils/exper/thot_auto_smt.sh
+++ b/utils/exper/thot_auto_smt.sh
@@ -339,16 +339,17 @@ recase_output()
     fi
 
     # Generate raw text file for recasing
+    rfile_rec=`"${MKTEMP}" "$tdir"/rfile_rec.XXXXXX` || exit 1
     "${bindir}"/thot_gen_rtfile -s "${raw_src_pref}" -t "${raw_trg_pref}" \
-        ${nolim_opt} -tdir "$tdir" > "$tdir/rfile_rec" 2> "${outd}/output/${transoutd}/thot_gen_rtfile_rec.log" || exit 1
+        ${nolim_opt} -tdir "$tdir" > "${rfile_rec}" 2> "${outd}/output/${transoutd}/thot_gen_rtfile_rec.log" || exit 1
       
     # Recase output
-    "${bindir}"/thot_recase -f "${output_file}" -r "$tdir/rfile_rec" -w \
+    "${bindir}"/thot_recase -f "${output_file}" -r "${rfile_rec}" -w \
         -tdir "$tdir" > "${output_file}_rec" 2> "${outd}/output/${transoutd}/thot_recase.log" || exit 1
     echo "" >&2
 
     # Remove temporary files
-    rm "$tdir/rfile_rec"
+    rm "${rfile_rec}"
 
     # Redefine output_file variable
     output_file=${output_file}_rec
@@ -360,16 +361,17 @@ detok_output()
     echo "**** Detokenizing output" >&2
 
     # Generate raw text file for detokenizing
+    rfile_detok=`"${MKTEMP}" "$tdir"/rfile_detok.XXXXXX` || exit 1
     "${bindir}"/thot_gen_rtfile -s "${scorpus_pref}" -t "${tcorpus_pref}" \
-        ${nolim_opt} -tdir "$tdir" > "$tdir/rfile_detok" 2> "${outd}/output/${transoutd}/thot_gen_rtfile_detok.log" || exit 1
+        ${nolim_opt} -tdir "$tdir" > "${rfile_detok}" 2> "${outd}/output/${transoutd}/thot_gen_rtfile_detok.log" || exit 1
 
     # Detokenize output
-    "${bindir}"/thot_detokenize -f "${output_file}" -r "$tdir/rfile_detok" \
+    "${bindir}"/thot_detokenize -f "${output_file}" -r "${rfile_detok}" \
         -tdir "$tdir" > "${output_file}_detok" 2> "${outd}/output/${transoutd}/thot_detokenize.log" || exit 1
     echo "" >&2
 
     # Remove temporary files
-    rm "$tdir/rfile_detok"
+    rm "${rfile_detok}"
 
     # Redefine output_file variable
     output_file=${output_file}_detok
-- 
2.43.0


From 149e798a592e2bc7ab765cbd81d378111c1ab25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:13 +0000
Subject: [PATCH 095/115] fix: thot_auto_smt creates the directory for
 preprocessed data when only --categ is given

---
 utils/exper/thot_auto_smt.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exper/thot_auto_smt.sh b/utils/exper/thot_auto_smt.sh
index 2b7b42c..894fc2d 100644
--- a/utils/exper/thot_auto_smt.sh
+++ b/utils/exper/thot_auto_smt.sh
@@ -381,7 +381,7 @@ detok_output()
 process_pars()
 {
     # Create preproc dir if necessary
-    if [ ${tok_given} -eq 1 -o ${lower_given} -eq 1 -o ${skip_clean_given} -eq 0 ]; then
+    if [ ${tok_given} -eq 1 -o ${lower_given} -eq 1 -o ${categ_given} -eq 1 -o ${skip_clean_given} -eq 0 ]; then
         # Store preproc dir name in a variable
         preproc_dir=preproc_data/initial
         # Check if the directory exists
-- 
2.43.0


From 0aa44f5b630695a5dde1a497ea9a625a820234d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:13 +0000
Subject: [PATCH 096/115] fix: thot_auto_smt checks that -bdbtm and -ldbtm are
 not given simultaneously

---
 utils/exper/thot_auto_smt.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exper/thot_auto_smt.sh b/utils/exper/thot_auto_smt.sh
index 894fc2d..ff03ae5 100644
--- a/utils/exper/thot_auto_smt.sh
+++ b/utils/exper/thot_auto_smt.sh
@@ -647,7 +647,7 @@ while [ $# -ne 0 ]; do
         "-ldblm") ldblm_given=1
                   lmtype_opt="-ldb"
                   ;;
-        "-bdbtm") bdbbtm_given=1
+        "-bdbtm") bdbtm_given=1
                   tmtype_opt="-bdb"
                   ;;
         "-ldbtm") ldbtm_given=1
-- 
2.43.0


From 7ef98d34531f9d2868d3cfc551dd22202ee64b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:34 +0000
Subject: [PATCH 097/115] fix: thot_pbs_get_nbest_for_trg reports failures of
 thot_get_nbest_for_trg

---
 utils/phrase_models/thot_pbs_get_nbest_for_trg.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_pbs_get_nbest_for_trg.sh b/utils/phrase_models/thot_pbs_get_nbest_for_trg.sh
index 6491f0c..6b46c3e 100644
--- a/utils/phrase_models/thot_pbs_get_nbest_for_trg.sh
+++ b/utils/phrase_models/thot_pbs_get_nbest_for_trg.sh
@@ -21,7 +21,7 @@ get_nbest_for_trg()
     echo "** Processing file ${ttable_file} (started at "`date`")..." >> "$SDIR"/log
 
     cat "${ttable_file}" 2> "$SDIR"/err | \
-        "$bindir"/thot_get_nbest_for_trg -n ${n_val} -p -T "$TMP" 2>> "$SDIR"/err > "$outfile" ; ${PIPEFAIL} || \
+        "$bindir"/thot_get_nbest_for_trg -n ${n_val} -p -T "$TMP" 2>> "$SDIR"/err > "$outfile" ; ${PIPE_FAIL} || \
         { echo "Error while executing get_nbest_for_trg" >> "$SDIR"/log ; return 1 ; }
 
     # Write date to log file
-- 
2.43.0


From 1a47889b7f9d07de7febf6653fe8fce30210d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:22 +0000
Subject: [PATCH 098/115] fix: training scripts report failures of the tools
 they run

---
 utils/phrase_models/thot_gen_fbdb_ttable.sh   | 21 +++++-----
 .../phrase_models/thot_gen_leveldb_ttable.sh  | 21 +++++-----
 utils/phrase_models/thot_get_nbest_for_trg.sh |  5 ++-
 utils/phrase_models/thot_pbs_gen_phr_model.sh |  3 +-
 utils/sw_models/thot_gen_batch_sw_model_mr.sh | 39 ++++++++++---------
 .../sw_models/thot_pbs_gen_batch_sw_model.sh  | 18 ++++-----
 utils/sw_models/thot_pbs_gen_best_sw_alig.sh  |  4 +-
 7 files changed, 62 insertions(+), 49 deletions(-)

diff --git a/utils/phrase_models/thot_gen_fbdb_ttable.sh b/utils/phrase_models/thot_gen_fbdb_ttable.sh
index 8e74e79..6486e26 100644
--- a/utils/phrase_models/thot_gen_fbdb_ttable.sh
+++ b/utils/phrase_models/thot_gen_fbdb_ttable.sh
@@ -1,6 +1,9 @@
 # Author: Daniel Ortiz Mart\'inez
 # *- bash -*
 
+# INCLUDE BASH LIBRARY
+. "${bindir}"/thot_general_lib || exit 1
+
 # Generates a binary phrase ttable given source and target vocabularies
 # and a thot ttable
 
@@ -159,9 +162,9 @@ gen_src_vocab()
         # If there is a single word model vocabulary already generated,
         # it should be used as the phrase model vocabulary to avoid
         # conflicts
-        cat "${p_val}_swm.svcb" | $AWK '{printf"%.8d %s %s\n",$1,$2,$3}' > "$srcv"
+        cat "${p_val}_swm.svcb" | $AWK '{printf"%.8d %s %s\n",$1,$2,$3}' > "$srcv" ; ${PIPE_FAIL} || return 1
     else
-        cat "$table" | extract_src_phrases $tmpdir | obtain_vocab "NULL UNKNOWN_WORD <UNUSED_WORD>" > "$srcv"
+        cat "$table" | extract_src_phrases $tmpdir | obtain_vocab "NULL UNKNOWN_WORD <UNUSED_WORD>" > "$srcv" ; ${PIPE_FAIL} || return 1
     fi
 }
 
@@ -173,17 +176,17 @@ gen_trg_vocab()
         # If there is a single word model vocabulary already generated,
         # it should be used as the phrase model vocabulary to avoid
         # conflicts
-        cat "${p_val}_swm.tvcb" | "$AWK" '{printf"%.8d %s %s\n",$1,$2,$3}' > $trgv
+        cat "${p_val}_swm.tvcb" | "$AWK" '{printf"%.8d %s %s\n",$1,$2,$3}' > "$trgv" ; ${PIPE_FAIL} || return 1
     else
-        cat "$table" | extract_trg_phrases "$tmpdir" | obtain_vocab "NULL UNKNOWN_WORD <UNUSED_WORD>" > "$trgv"
+        cat "$table" | extract_trg_phrases "$tmpdir" | obtain_vocab "NULL UNKNOWN_WORD <UNUSED_WORD>" > "$trgv" ; ${PIPE_FAIL} || return 1
     fi
 }
 ########
 gen_vocab_files()
 {
-    gen_src_vocab
+    gen_src_vocab || return 1
 
-    gen_trg_vocab
+    gen_trg_vocab || return 1
 }
 
 ########
@@ -193,7 +196,7 @@ gen_fbdb_files()
         plain_ttable_to_id "$srcv" "$trgv" "$table" > "$out.idttable"
     fi
 
-    plain_ttable_to_id "$srcv" "$trgv" "$table" | "${bindir}"/thot_ttable_to_fbdb -o "$out"
+    plain_ttable_to_id "$srcv" "$trgv" "$table" | "${bindir}"/thot_ttable_to_fbdb -o "$out" ; ${PIPE_FAIL} || return 1
 }
 
 ########
@@ -274,9 +277,9 @@ else
 
     remove_prev_files
     
-    gen_vocab_files
+    gen_vocab_files || exit 1
 
-    gen_fbdb_files
+    gen_fbdb_files || exit 1
 
     echo "BDB ttable generation process finished" >&2
 fi
diff --git a/utils/phrase_models/thot_gen_leveldb_ttable.sh b/utils/phrase_models/thot_gen_leveldb_ttable.sh
index 97414e5..a3ce663 100644
--- a/utils/phrase_models/thot_gen_leveldb_ttable.sh
+++ b/utils/phrase_models/thot_gen_leveldb_ttable.sh
@@ -1,6 +1,9 @@
 # Author: Daniel Ortiz Mart\'inez, Adam Harasimowicz
 # *- bash -*
 
+# INCLUDE BASH LIBRARY
+. "${bindir}"/thot_general_lib || exit 1
+
 # Generates a binary phrase ttable given source and target vocabularies
 # and a thot ttable
 
@@ -165,9 +168,9 @@ gen_src_vocab()
         # If there is a single word model vocabulary already generated,
         # it should be used as the phrase model vocabulary to avoid
         # conflicts
-        cat "${p_val}_swm.svcb" | "$AWK" '{printf"%.8d %s %s\n",$1,$2,$3}' > "$srcv"
+        cat "${p_val}_swm.svcb" | "$AWK" '{printf"%.8d %s %s\n",$1,$2,$3}' > "$srcv" ; ${PIPE_FAIL} || return 1
     else
-        cat "$table" | extract_src_phrases "$tmpdir" | obtain_vocab "NULL UNKNOWN_WORD <UNUSED_WORD>" > "$srcv"
+        cat "$table" | extract_src_phrases "$tmpdir" | obtain_vocab "NULL UNKNOWN_WORD <UNUSED_WORD>" > "$srcv" ; ${PIPE_FAIL} || return 1
     fi
 }
 
@@ -179,18 +182,18 @@ gen_trg_vocab()
         # If there is a single word model vocabulary already generated,
         # it should be used as the phrase model vocabulary to avoid
         # conflicts
-        cat "${p_val}_swm.tvcb" | "$AWK" '{printf"%.8d %s %s\n",$1,$2,$3}' > "$trgv"
+        cat "${p_val}_swm.tvcb" | "$AWK" '{printf"%.8d %s %s\n",$1,$2,$3}' > "$trgv" ; ${PIPE_FAIL} || return 1
     else
-        cat "$table" | extract_trg_phrases "$tmpdir" | obtain_vocab "NULL UNKNOWN_WORD <UNUSED_WORD>" > "$trgv"
+        cat "$table" | extract_trg_phrases "$tmpdir" | obtain_vocab "NULL UNKNOWN_WORD <UNUSED_WORD>" > "$trgv" ; ${PIPE_FAIL} || return 1
     fi
 }
 
 ########
 gen_vocab_files()
 {
-    gen_src_vocab
+    gen_src_vocab || return 1
 
-    gen_trg_vocab
+    gen_trg_vocab || return 1
 }
 
 ########
@@ -201,7 +204,7 @@ gen_leveldb_files()
         plain_ttable_to_id "$srcv" "$trgv" "$table" > "$out.idttable"
     fi
 
-    plain_ttable_to_id "$srcv" "$trgv" "$table" | "${bindir}"/thot_ttable_to_leveldb -o "${out}_ldb_phrdict"
+    plain_ttable_to_id "$srcv" "$trgv" "$table" | "${bindir}"/thot_ttable_to_leveldb -o "${out}_ldb_phrdict" ; ${PIPE_FAIL} || return 1
 }
 
 ########
@@ -282,9 +285,9 @@ else
 
     remove_prev_files
     
-    gen_vocab_files
+    gen_vocab_files || exit 1
 
-    gen_leveldb_files
+    gen_leveldb_files || exit 1
 
     echo "LevelDB ttable generation process finished" >&2
 fi
diff --git a/utils/phrase_models/thot_get_nbest_for_trg.sh b/utils/phrase_models/thot_get_nbest_for_trg.sh
index ac30839..1d201b4 100644
--- a/utils/phrase_models/thot_get_nbest_for_trg.sh
+++ b/utils/phrase_models/thot_get_nbest_for_trg.sh
@@ -1,6 +1,9 @@
 # Author: Daniel Ortiz Mart\'inez
 # *- bash -*
 
+# INCLUDE BASH LIBRARY
+. "${bindir}"/thot_general_lib || exit 1
+
 # Gets the first n source phrases for each target phrase with higher
 # value of c_st. If n is between 0 and 1, then n is used as a threshold
 # value. Given a target phrase t~, the script will show those
@@ -118,5 +121,5 @@ else
         exit 1
     fi
     "${bindir}"/thot_flip_phr "${ttable_file}" | "${bindir}"/thot_sort_ttable -T "$tmpdir" | \
-        filter_nbest | "${bindir}"/thot_flip_phr
+        filter_nbest | "${bindir}"/thot_flip_phr ; ${PIPE_FAIL} || exit 1
 fi
diff --git a/utils/phrase_models/thot_pbs_gen_phr_model.sh b/utils/phrase_models/thot_pbs_gen_phr_model.sh
index 575af5c..2caf766 100644
--- a/utils/phrase_models/thot_pbs_gen_phr_model.sh
+++ b/utils/phrase_models/thot_pbs_gen_phr_model.sh
@@ -105,7 +105,8 @@ merge_gen_phr()
 
     if [ "${estimation}" = "BRF" ]; then
         cat "$SDIR"/*.seglentable > "$tmpdir"/${$}seglentable
-        "${bindir}"/thot_merge_seglen_counts "$tmpdir"/${$}seglentable > "${output}".seglentable
+        "${bindir}"/thot_merge_seglen_counts "$tmpdir"/${$}seglentable > "${output}".seglentable || \
+            { echo "Error while executing merge_gen_phr" >> "$SDIR"/log ; return 1 ; }
         rm "$tmpdir"/${$}seglentable
     fi
     
diff --git a/utils/sw_models/thot_gen_batch_sw_model_mr.sh b/utils/sw_models/thot_gen_batch_sw_model_mr.sh
index 751eb75..f15ab8d 100644
--- a/utils/sw_models/thot_gen_batch_sw_model_mr.sh
+++ b/utils/sw_models/thot_gen_batch_sw_model_mr.sh
@@ -1,6 +1,9 @@
 # Author: Daniel Ortiz Mart\'inez
 # *- bash -*
 
+# INCLUDE BASH LIBRARY
+. "${bindir}"/thot_general_lib || exit 1
+
 # Generates a single-word model using batch learning. The training
 # procedure maintains the space complexity of the training process under
 # control by using the map reduce technique.
@@ -90,7 +93,7 @@ estimate_slmodel()
     else
         echo "+++ Estimating sentence length model..." >> "$TMP"/log
         echo "+++ Estimating sentence length model..." >&2
-        "${bindir}"/thot_gen_wigauss_slen_model "${srcf}" "${trgf}" > "${slmodel_dir}"/model
+        "${bindir}"/thot_gen_wigauss_slen_model "${srcf}" "${trgf}" > "${slmodel_dir}"/model || return 1
     fi
 }
 
@@ -105,8 +108,8 @@ define_init_model_info()
             ${lf_opt} ${af_opt} ${np_opt} -eb -n 1 -nl -o "${init_model_dir}"/model > "${init_model_dir}"/log 2>&1 || return 1
      
         # Add complete vocabularies
-        "${bindir}"/thot_get_swm_vocab "${srcf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.svcb
-        "${bindir}"/thot_get_swm_vocab "${trgf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.tvcb
+        "${bindir}"/thot_get_swm_vocab "${srcf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.svcb || return 1
+        "${bindir}"/thot_get_swm_vocab "${trgf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.tvcb || return 1
 
         # Create msinfo file
         echo "0" > "${init_model_dir}"/model.msinfo
@@ -182,16 +185,16 @@ sort_counts()
 sort_counts_text()
 {
     "${AWK}" -v c=$chunk_id '{printf"%s %s\n",$0,c}' "${models_per_chunk_dir}"/${out_chunk}.${lex_ext} | \
-        sort_lex_counts_text > "${curr_tables_dir}"/lex_counts_${out_chunk}
+        sort_lex_counts_text > "${curr_tables_dir}"/lex_counts_${out_chunk} ; ${PIPE_FAIL} || return 1
     if [ ${alig_ext} != "none" ]; then 
         "${AWK}" -v c=$chunk_id '{printf"%s %s\n",$0,c}' "${models_per_chunk_dir}"/${out_chunk}.${alig_ext} | \
-            sort_alig_counts_text > "${curr_tables_dir}"/alig_counts_${out_chunk}
+            sort_alig_counts_text > "${curr_tables_dir}"/alig_counts_${out_chunk} ; ${PIPE_FAIL} || return 1
     fi
 }
 
 sort_counts_bin()
 {
-    "${bindir}"/thot_sort_bin_ilextable -l "${models_per_chunk_dir}"/${out_chunk}.${lex_ext} > "${curr_tables_dir}"/lex_counts_${out_chunk}
+    "${bindir}"/thot_sort_bin_ilextable -l "${models_per_chunk_dir}"/${out_chunk}.${lex_ext} > "${curr_tables_dir}"/lex_counts_${out_chunk} || return 1
 
     if [ ${alig_ext} != "none" ]; then 
         case ${alig_ext} in
@@ -220,7 +223,7 @@ proc_chunk()
         # Second iteration or greater
         
         # Create filtered model...
-        create_filtered_model
+        create_filtered_model || return 1
 
         # Remove previously existing files
         rm -rf "${models_per_chunk_dir}"/${out_chunk}*
@@ -276,7 +279,7 @@ merge_lex_counts()
 merge_lex_counts_text()
 {
     # Append and merge lex sorted counts
-    append_lex_sorted_counts_text | "${bindir}"/thot_merge_text_ilextable -ns -T "$TMP" > "${curr_tables_dir}"/merged_lex_counts || return 1
+    append_lex_sorted_counts_text | "${bindir}"/thot_merge_text_ilextable -ns -T "$TMP" > "${curr_tables_dir}"/merged_lex_counts ; ${PIPE_FAIL} || return 1
 
     # Delete lex sorted counts
     rm "${curr_tables_dir}"/lex_counts_*
@@ -285,7 +288,7 @@ merge_lex_counts_text()
 merge_lex_counts_bin()
 {
     # Merge lex sorted counts
-    "${bindir}"/thot_merge_bin_ilextable "${curr_tables_dir}"/lex_counts_* > "${curr_tables_dir}"/merged_lex_counts || return 1
+    "${bindir}"/thot_merge_bin_ilextable "${curr_tables_dir}"/lex_counts_* > "${curr_tables_dir}"/merged_lex_counts ; ${PIPE_FAIL} || return 1
 
     # Delete lex sorted counts
     rm "${curr_tables_dir}"/lex_counts_*
@@ -304,9 +307,9 @@ merge_alig_counts_text()
 {
     # Append and merge alig sorted counts
     case ${alig_ext} in
-        "hmm_alignd") append_alig_sorted_counts_text | "${bindir}"/thot_merge_text_ihmmatable -ns -T "$TMP" > "${curr_tables_dir}"/merged_alig_counts || return 1
+        "hmm_alignd") append_alig_sorted_counts_text | "${bindir}"/thot_merge_text_ihmmatable -ns -T "$TMP" > "${curr_tables_dir}"/merged_alig_counts ; ${PIPE_FAIL} || return 1
             ;;
-        "ibm2_alignd") append_alig_sorted_counts_text | "${bindir}"/thot_merge_text_iibm2atable -ns -T "$TMP" > "${curr_tables_dir}"/merged_alig_counts || return 1
+        "ibm2_alignd") append_alig_sorted_counts_text | "${bindir}"/thot_merge_text_iibm2atable -ns -T "$TMP" > "${curr_tables_dir}"/merged_alig_counts ; ${PIPE_FAIL} || return 1
             ;;
     esac
 
@@ -320,9 +323,9 @@ merge_alig_counts_bin()
 {
     # Merge alig sorted counts
     case ${alig_ext} in
-        "hmm_alignd") "${bindir}"/thot_merge_bin_ihmmatable "${curr_tables_dir}"/alig_counts_* > "${curr_tables_dir}"/merged_alig_counts
+        "hmm_alignd") "${bindir}"/thot_merge_bin_ihmmatable "${curr_tables_dir}"/alig_counts_* > "${curr_tables_dir}"/merged_alig_counts || return 1
             ;;
-        "ibm2_alignd") "${bindir}"/thot_merge_bin_iibm2atable "${curr_tables_dir}"/alig_counts_*  > "${curr_tables_dir}"/merged_alig_counts
+        "ibm2_alignd") "${bindir}"/thot_merge_bin_iibm2atable "${curr_tables_dir}"/alig_counts_*  > "${curr_tables_dir}"/merged_alig_counts || return 1
             ;;
     esac
 
@@ -367,7 +370,7 @@ filter_lex_table_text()
     local scorpus="${chunks_dir}"/${src_chunk}
     local tcorpus="${chunks_dir}"/${trg_chunk}
     local lextable="${curr_tables_dir}"/merged_lex_counts
-    "${bindir}"/thot_filter_text_ilextable "$svocfile" "$tvocfile" "$scorpus" "$tcorpus" "$lextable" > "${filtered_model_dir}"/model.${lex_ext}
+    "${bindir}"/thot_filter_text_ilextable "$svocfile" "$tvocfile" "$scorpus" "$tcorpus" "$lextable" > "${filtered_model_dir}"/model.${lex_ext} || return 1
     if [ ${debug} -ne 0 ]; then
         echo " - Entries in unfiltered table: "`wc -l "${lextable}" | "$AWK" '{printf"%s",$1}'` >> "$TMP"/log
         echo " - Entries in filtered table: "`wc -l "${filtered_model_dir}"/model.${lex_ext} | "$AWK" '{printf"%s",$1}'` >> "$TMP"/log
@@ -452,7 +455,7 @@ prune_lex_table()
 prune_lex_table_text()
 {
     "${bindir}"/thot_prune_text_ilextable -n ${npr_val} -c ${cpr_val} \
-        -t "${curr_tables_dir}"/merged_lex_counts -T "$TMP" > "${output}".${lex_ext}
+        -t "${curr_tables_dir}"/merged_lex_counts -T "$TMP" > "${output}".${lex_ext} || return 1
     if [ ${debug} -ne 0 ]; then
         echo " - Entries in original table: "`wc -l "${curr_tables_dir}"/merged_lex_counts | "$AWK" '{printf"%s",$1}'` >> "$TMP"/log
         echo " - Entries in pruned table: "`wc -l "${output}".${lex_ext} | "$AWK" '{printf"%s",$1}'` >> "$TMP"/log
@@ -503,7 +506,7 @@ generate_final_model()
     
     # Copy alignment table if exists
     if [ ${alig_ext} != "none" ]; then
-        cp "${curr_tables_dir}"/merged_alig_counts "${output}".${alig_ext}
+        cp "${curr_tables_dir}"/merged_alig_counts "${output}".${alig_ext} || return 1
     fi
 }
 
@@ -703,7 +706,7 @@ get_model_information
 split_input
 
 # Estimate sentence length model
-estimate_slmodel
+estimate_slmodel || exit 1
 
 # EM algorithm iterations
 n=1
@@ -744,7 +747,7 @@ while [ $n -le ${niters} ]; do
 done
 
 # Generate final model...
-generate_final_model
+generate_final_model || exit 1
 
 # Copy log file
 echo "++++ Process finished at: " `date` >> ""$TMP""/log
diff --git a/utils/sw_models/thot_pbs_gen_batch_sw_model.sh b/utils/sw_models/thot_pbs_gen_batch_sw_model.sh
index a0011a8..7fb45fd 100644
--- a/utils/sw_models/thot_pbs_gen_batch_sw_model.sh
+++ b/utils/sw_models/thot_pbs_gen_batch_sw_model.sh
@@ -137,8 +137,8 @@ split_input()
         "${SPLIT}" -l ${chunk_size} "${trgf}" "${chunks_dir}/trg_chunk_" || return 1
     else
         local rand_seed=31415
-        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${srcf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/src_chunk_" || return 1
-        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${trgf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/trg_chunk_" || return 1
+        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${srcf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/src_chunk_" ; ${PIPE_FAIL} || return 1
+        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${trgf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/trg_chunk_" ; ${PIPE_FAIL} || return 1
     fi
 }
 
@@ -164,8 +164,8 @@ estimate_init_model()
         ${lf_opt} ${af_opt} ${np_opt} -eb -n 1 -nl -o "${init_model_dir}"/model 2> "${init_model_dir}"/log || return 1
      
     # Add complete vocabularies
-    "${bindir}"/thot_get_swm_vocab "${srcf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.svcb
-    "${bindir}"/thot_get_swm_vocab "${trgf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.tvcb
+    "${bindir}"/thot_get_swm_vocab "${srcf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.svcb || return 1
+    "${bindir}"/thot_get_swm_vocab "${trgf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.tvcb || return 1
 
     # Create msinfo file
     echo "0" > "${init_model_dir}"/model.msinfo
@@ -231,16 +231,16 @@ sort_counts()
 sort_counts_text()
 {
     "${AWK}" -v c=$chunk_id '{printf"%s %s\n",$0,c}' "${models_per_chunk_dir}/${out_chunk}/model.${lex_ext}" | \
-        sort_lex_counts_text > "${curr_tables_dir}/lex_counts_${out_chunk}"
+        sort_lex_counts_text > "${curr_tables_dir}/lex_counts_${out_chunk}" ; ${PIPE_FAIL} || return 1
     if [ ${alig_ext} != "none" ]; then 
         "${AWK}" -v c=$chunk_id '{printf"%s %s\n",$0,c}' "${models_per_chunk_dir}/${out_chunk}/model.${alig_ext}" | \
-            sort_alig_counts_text > "${curr_tables_dir}/alig_counts_${out_chunk}"
+            sort_alig_counts_text > "${curr_tables_dir}/alig_counts_${out_chunk}" ; ${PIPE_FAIL} || return 1
     fi
 }
 
 sort_counts_bin()
 {
-    "${bindir}"/thot_sort_bin_ilextable -l "${models_per_chunk_dir}/${out_chunk}/model.${lex_ext}" > "${curr_tables_dir}/lex_counts_${out_chunk}"
+    "${bindir}"/thot_sort_bin_ilextable -l "${models_per_chunk_dir}/${out_chunk}/model.${lex_ext}" > "${curr_tables_dir}/lex_counts_${out_chunk}" || return 1
 
     if [ ${alig_ext} != "none" ]; then 
         case ${alig_ext} in
@@ -463,7 +463,7 @@ filter_lex_table_text()
     local scorpus="${chunks_dir}"/${src_chunk}
     local tcorpus="${chunks_dir}"/${trg_chunk}
     local lextable="${curr_tables_dir}"/merged_lex_counts
-    "${bindir}"/thot_filter_text_ilextable "$svocfile" "$tvocfile" "$scorpus" "$tcorpus" "$lextable" > "${chunk_filtered_model_dir}/model.${lex_ext}"
+    "${bindir}"/thot_filter_text_ilextable "$svocfile" "$tvocfile" "$scorpus" "$tcorpus" "$lextable" > "${chunk_filtered_model_dir}/model.${lex_ext}" || return 1
     if [ ${debug} -ne 0 ]; then
         echo "Entries in unfiltered table (${chunk}): "`wc -l "${lextable}" | "$AWK" '{printf"%s",$1}'` >> "$SDIR"/log
         echo "Entries in filtered table (${chunk}): "`wc -l "${chunk_filtered_model_dir}/model.${lex_ext}" | "$AWK" '{printf"%s",$1}'` >> "$SDIR"/log
@@ -487,7 +487,7 @@ filter_lex_table_text_alt()
             sword=$1
             tword=$2
            }
-          }' "$lextable" > "${chunk_filtered_model_dir}/model.${lex_ext}"
+          }' "$lextable" > "${chunk_filtered_model_dir}/model.${lex_ext}" || return 1
     if [ ${debug} -ne 0 ]; then
         echo "Entries in unfiltered table (${chunk}): "`wc -l "${lextable}" | "$AWK" '{printf"%s",$1}'` >> "$SDIR"/log
         echo "Entries in filtered table (${chunk}): "`wc -l "${chunk_filtered_model_dir}/model.${lex_ext}" | "$AWK" '{printf"%s",$1}'` >> "$SDIR"/log
diff --git a/utils/sw_models/thot_pbs_gen_best_sw_alig.sh b/utils/sw_models/thot_pbs_gen_best_sw_alig.sh
index bb41662..c68a309 100644
--- a/utils/sw_models/thot_pbs_gen_best_sw_alig.sh
+++ b/utils/sw_models/thot_pbs_gen_best_sw_alig.sh
@@ -130,8 +130,8 @@ split_input()
         "${SPLIT}" -l ${chunk_size} "${trgf}" "${chunks_dir}/trg_chunk_" || return 1
     else
         local rand_seed=31415
-        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${srcf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/src_chunk_" || return 1
-        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${trgf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/trg_chunk_" || return 1
+        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${srcf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/src_chunk_" ; ${PIPE_FAIL} || return 1
+        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${trgf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/trg_chunk_" ; ${PIPE_FAIL} || return 1
     fi
 }
 
-- 
2.43.0


From 8dbfb6004404d0a7f0ae9b8b4829c8d765ddebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:08 +0000
Subject: [PATCH 099/115] Restore thot_prepare_sys_for_test

---
 utils/exper/thot_prepare_sys_for_test.sh | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/utils/exper/thot_prepare_sys_for_test.sh b/utils/exper/thot_prepare_sys_for_test.sh
index 1c66d3a..aa9f3f8 100644
--- a/utils/exper/thot_prepare_sys_for_test.sh
+++ b/utils/exper/thot_prepare_sys_for_test.sh
@@ -137,7 +137,7 @@ process_files_for_individual_lm()
         if [ -d "$file" ]; then
             # create symbolic links for directories
             basefname=`"$BASENAME" "$file"`
-            "$LN" -sfn "`get_absolute_path "$file"`" "${outd}/lm/${_lm_status}/${basefname}" || { echo "Error while preparing language model files" >&2 ; return 1; }
+            "$LN" -s "$file" "${outd}/lm/${_lm_status}/${basefname}" || { echo "Error while preparing language model files" >&2 ; return 1; }
         fi
     done
 
@@ -185,20 +185,20 @@ create_lm_files()
         done
 
         # Copy weights for lm descriptor
-        cp "${lmfile}.weights" "${outd}/lm/lm_desc.weights"
+        cp "${lmfile}.weights" "${outd}/lm/"
 
         # Copy wp file for lm descriptor
-        cp "${lmfile}.wp" "${outd}/lm/lm_desc.wp"
+        cp "${lmfile}.wp" "${outd}/lm/"
 
         # Obtain new file name for lm descriptor
         baselmfile=`basename "$lmfile"`
-        newlmfile="${outd}/lm/lm_desc"
+        newlmfile="${outd}/lm/${baselmfile}"
     else
         # Create descriptor
         echo "thot lm descriptor" > "${outd}/lm/lm_desc"
 
         # Create files for individual language model
-        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so" "${lmfile}" "main" || return 1;
+        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so ${lmfile}" "main" || return 1;
 
         # Obtain new lm file name
         baselmfile=`basename "$lmfile"`
@@ -244,7 +244,7 @@ process_files_for_individual_tm()
         if [ -d "$file" ]; then
             # create symbolic links for directories
             basefname=`"$BASENAME" "$file"`
-            "$LN" -sfn "`get_absolute_path "$file"`" "${outd}/tm/${_tm_status}/${basefname}" || { echo "Error while preparing translation model files" >&2 ; return 1; }
+            "$LN" -s "$file" "${outd}/tm/${_tm_status}/${basefname}" || { echo "Error while preparing translation model files" >&2 ; return 1; }
         fi
     done
 
@@ -293,7 +293,7 @@ create_tm_files()
 
         # Obtain new file name for tm descriptor
         basetmfile=`basename "$tmfile"`
-        newtmfile="${outd}/tm/tm_desc"
+        newtmfile="${outd}/tm/${basetmfile}"
     else
         # Create descriptor
         echo "thot tm descriptor" > "${outd}/tm/tm_desc"
@@ -311,10 +311,7 @@ create_tm_files()
 get_srcsents_from_test()
 {
     tcorpus_wo_metadata=${outd}/test_corpus_without_metadata
-    "${bindir}"/thot_get_srcsents_from_metadata -f "${tcorpus}" > "${tcorpus_wo_metadata}" 2>/dev/null || return 1
-
-    # Keep the entries for the unknown word when filtering
-    echo "UNKNOWN_WORD" >> "${tcorpus_wo_metadata}"
+    "${bindir}"/thot_get_srcsents_from_metadata -f "${tcorpus}" > "${tcorpus_wo_metadata}" 2>/dev/null
 }
 
 ########
@@ -474,7 +471,7 @@ else
         # echo "Error! output directory should not exist" >&2 
         # exit 1
     else
-        mkdir -p "${outd}/" || { echo "Error! cannot create output directory" >&2; exit 1; }
+        mkdir -p "${outd}/" || { echo "Error! cannot create output directory" >&2; return 1; }
     fi
     # Obtain absolute path
     outd=`get_absolute_path "$outd"`
-- 
2.43.0


From c3d851f09846cfd008fe871f1ba9d39213da7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:14 +0000
Subject: [PATCH 100/115] fix: filtering a phrase table keeps the entries of
 the unknown word, and tuning notices its failures

---
 utils/exper/thot_smt_tune.sh                          | 11 +++--------
 .../phrase_models/thot_filter_ttable_given_corpus.sh  |  2 ++
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index be0e81e..8e4b880 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -506,10 +506,10 @@ filter_ttables()
             curr_tmfile=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
             curr_tmfile_dirname=`"$DIRNAME" $curr_tmfile`
-            filter_ttable "${tmdesc_dirname}/${curr_tmfile}" "${scorpus_for_filtering}" "${outd}/tm_dev/${curr_tmfile_dirname}"
+            filter_ttable "${tmdesc_dirname}/${curr_tmfile}" "${scorpus_wo_metadata}" "${outd}/tm_dev/${curr_tmfile_dirname}" || return 1
         done
     else
-        filter_ttable "${tmfile}" "${scorpus_for_filtering}" "${outd}/tm_dev/main"
+        filter_ttable "${tmfile}" "${scorpus_wo_metadata}" "${outd}/tm_dev/main" || return 1
     fi
 }
 
@@ -659,7 +659,7 @@ tune_tm()
 
     if [ ${lm_dir_already_exist} -eq 0 ]; then
         # Create initial lm files
-        create_lm_files
+        create_lm_files || return 1
     fi
 
     ######
@@ -671,11 +671,6 @@ tune_tm()
     scorpus_wo_metadata="${outd}"/src_corpus_without_metadata
     "${bindir}"/thot_get_srcsents_from_metadata -f "${scorpus}" > "${scorpus_wo_metadata}" 2>/dev/null || return 1
 
-    # Create corpus to filter the translation table (entries for the
-    # unknown word are kept)
-    scorpus_for_filtering="${outd}"/src_corpus_for_filtering
-    { cat "${scorpus_wo_metadata}" ; echo "UNKNOWN_WORD" ; } > "${scorpus_for_filtering}" || return 1
-
     # Filter translation table
     echo "" >&2
     echo "- Filtering translation table for development corpus..." >&2
diff --git a/utils/phrase_models/thot_filter_ttable_given_corpus.sh b/utils/phrase_models/thot_filter_ttable_given_corpus.sh
index 5c4cfa6..ef5b9af 100644
--- a/utils/phrase_models/thot_filter_ttable_given_corpus.sh
+++ b/utils/phrase_models/thot_filter_ttable_given_corpus.sh
@@ -34,6 +34,8 @@ else
        ' BEGIN { 
                  used=0
                  total=0
+                 # Entries for the unknown word are always accessed
+                 testCorpus["UNKNOWN_WORD"]=1
                  while( (getline <file) > 0)
                  {
                    for(i=1;i<=NF;i++) 
-- 
2.43.0


From 5e421845bd305736fd1c3c70ace4eb6c450cf4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:09 +0000
Subject: [PATCH 101/115] fix: do not look at the last character of an empty
 prefix

---
 src/error_correction/WgProcessorForAnlp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index c0787a7..a72cd50 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -318,7 +318,7 @@ WgProcessorForAnlp<ECM_FOR_WG>::correct(std::string prefix,
 
         // Obtain prefix vector
     std::vector<std::string> prefixVec=StrProcUtils::stringToStringVector(prefix);
-    if(prefix[prefix.size()-1]==' ' && prefixVec.size()>0)
+    if(prefixVec.size()>0 && prefix[prefix.size()-1]==' ')
     {
       prefixVec[prefixVec.size()-1]+=' ';
     }
-- 
2.43.0


From ed690dd57258774f132ad9d0e09bb397b353200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 102/115] fix: thot_obtain_best_trans_from_nbl misread scores
 printed with an exponent

The rescored list was sorted with 'sort -n', which takes 1.2e+06 for 1.2 and
-3e-05 for -3, so that a worse translation could be returned.
---
 utils/error_correction/thot_obtain_best_trans_from_nbl.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/error_correction/thot_obtain_best_trans_from_nbl.sh b/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
index adc873d..0d558ea 100644
--- a/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
+++ b/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
@@ -26,7 +26,7 @@ if [ $# -lt 2 ]; then
 else
     file=$1
     weights=$2
-    cat "$file" | "$bindir"/thot_rescore_nbest "$weights" | "${TAIL}" -n +2 | LC_ALL=C "${SORT}" -k1nr \
+    cat "$file" | "$bindir"/thot_rescore_nbest "$weights" | "${TAIL}" -n +2 | LC_ALL=C "${SORT}" -k1,1gr \
         | "${AWK}" '{if(FNR==1) printf"%s\n",$0}' | get_trans
     # NOTE: 'awk' is used above instead of 'head' to avoid Broken Pipe errors due to SIGPIPE signal
 fi
-- 
2.43.0


From c3081036f42f9436e17d1c5961646af667b2e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 103/115] fix: thot_merge_nbest_list went on after reporting an
 error

Missing files or lists with different weights were reported, but the entries
were merged all the same and the exit status was 0.
---
 utils/error_correction/thot_merge_nbest_list.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/error_correction/thot_merge_nbest_list.sh b/utils/error_correction/thot_merge_nbest_list.sh
index 0331a25..99877e4 100644
--- a/utils/error_correction/thot_merge_nbest_list.sh
+++ b/utils/error_correction/thot_merge_nbest_list.sh
@@ -73,10 +73,12 @@ else
     # Verify parameters
     if [ ! -f "${file1}" ]; then
         echo "Error: file ${file1} does not exist" >&2
+        exit 1
     fi
 
     if [ ! -f "${file2}" ]; then
         echo "Error: file ${file2} does not exist" >&2
+        exit 1
     fi
 
     # Obtain weight names
@@ -87,6 +89,7 @@ else
     ret=`nbls_have_same_weights`
     if [ $ret -eq 0 ]; then
         echo "Error: n-best lists have different sets of weights" >&2
+        exit 1
     fi
     
     # Print header
-- 
2.43.0


From 4f591fc306f304eb3e2c9f7c4d7109e9d68f9672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 104/115] fix: thot_repetition_rate printed the fraction of
 unseen 3-grams as that of 4-grams

A corpus of sentences with less than two words (no 4-grams) also caused a
division by zero.
---
 utils/incr_models/thot_repetition_rate.sh | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/utils/incr_models/thot_repetition_rate.sh b/utils/incr_models/thot_repetition_rate.sh
index 07df909..a4f48ec 100644
--- a/utils/incr_models/thot_repetition_rate.sh
+++ b/utils/incr_models/thot_repetition_rate.sh
@@ -65,18 +65,18 @@ obtain_ngc_of_corpus_not_present_in_train()
 
 compute_unf_for_n()
 {
-    ifrac1=`echo "$cdist1 $diff_dist1" | "$AWK" '{printf "%f\n",$2/$1 }'`
-    ifrac2=`echo "$cdist2 $diff_dist2" | "$AWK" '{printf "%f\n",$2/$1 }'`
-    ifrac3=`echo "$cdist3 $diff_dist3" | "$AWK" '{printf "%f\n",$2/$1 }'`
-    ifrac4=`echo "$cdist4 $diff_dist4" | "$AWK" '{printf "%f\n",$2/$1 }'`
+    ifrac1=`echo "$cdist1 $diff_dist1" | "$AWK" '{if($1==0) printf"0\n"; else printf "%f\n",$2/$1 }'`
+    ifrac2=`echo "$cdist2 $diff_dist2" | "$AWK" '{if($1==0) printf"0\n"; else printf "%f\n",$2/$1 }'`
+    ifrac3=`echo "$cdist3 $diff_dist3" | "$AWK" '{if($1==0) printf"0\n"; else printf "%f\n",$2/$1 }'`
+    ifrac4=`echo "$cdist4 $diff_dist4" | "$AWK" '{if($1==0) printf"0\n"; else printf "%f\n",$2/$1 }'`
 }
 
 compute_unf_for_n_totals()
 {
-    ifrac1=`echo "$ctotal1 $diff_total1" | "$AWK" '{printf "%f\n",$2/$1 }'`
-    ifrac2=`echo "$ctotal2 $diff_total2" | "$AWK" '{printf "%f\n",$2/$1 }'`
-    ifrac3=`echo "$ctotal3 $diff_total3" | "$AWK" '{printf "%f\n",$2/$1 }'`
-    ifrac4=`echo "$ctotal4 $diff_total4" | "$AWK" '{printf "%f\n",$2/$1 }'`
+    ifrac1=`echo "$ctotal1 $diff_total1" | "$AWK" '{if($1==0) printf"0\n"; else printf "%f\n",$2/$1 }'`
+    ifrac2=`echo "$ctotal2 $diff_total2" | "$AWK" '{if($1==0) printf"0\n"; else printf "%f\n",$2/$1 }'`
+    ifrac3=`echo "$ctotal3 $diff_total3" | "$AWK" '{if($1==0) printf"0\n"; else printf "%f\n",$2/$1 }'`
+    ifrac4=`echo "$ctotal4 $diff_total4" | "$AWK" '{if($1==0) printf"0\n"; else printf "%f\n",$2/$1 }'`
 }
 
 compute_unf()
@@ -245,7 +245,7 @@ if [ ${t_given} -eq 1 ]; then
     ifrac=`compute_unf`
 
     # Print unseen n-gram fraction
-    echo "* UNF($corpus,$tcorpus)= $ifrac ; $ifrac1/$ifrac2/$ifrac3/$ifrac3"
+    echo "* UNF($corpus,$tcorpus)= $ifrac ; $ifrac1/$ifrac2/$ifrac3/$ifrac4"
 
     # Print statistics
     print_statistics "$corpus , $tcorpus"
-- 
2.43.0


From febb8b1dc74e9ed86bb7d0d9d54737cf4a964d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 105/115] fix: thot_corpus_represent did not print the length
 of the input sample

The command and its argument were quoted together.
---
 utils/incr_models/thot_corpus_represent.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/incr_models/thot_corpus_represent.sh b/utils/incr_models/thot_corpus_represent.sh
index 64cff54..6bcb79a 100644
--- a/utils/incr_models/thot_corpus_represent.sh
+++ b/utils/incr_models/thot_corpus_represent.sh
@@ -193,7 +193,7 @@ if [ ${a_given} -eq 1 ]; then
 fi
 
 # Print results
-sample_numw=`"$WC ${sample}" | "$AWK" '{printf"%s",$2}'`
+sample_numw=`"$WC" "${sample}" | "$AWK" '{printf"%s",$2}'`
 echo "* Input Sample"
 echo " - Length in words        : ${sample_numw}"
 echo " - Unseen n-gram fraction : ${unf_sample}"
-- 
2.43.0


From d5890467601626be06ee1dd3d12f24883a22507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 106/115] fix: thot_conf_interv_* evaluated one subset less
 than requested

The bounds are chosen for N values, so that the upper bound was not symmetric
to the lower one; N=2 ended with a division by zero.
---
 utils/stack_dec/thot_conf_interv_cat.sh | 2 +-
 utils/stack_dec/thot_conf_interv_smt.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/stack_dec/thot_conf_interv_cat.sh b/utils/stack_dec/thot_conf_interv_cat.sh
index 76bdfaf..f6ce8cb 100644
--- a/utils/stack_dec/thot_conf_interv_cat.sh
+++ b/utils/stack_dec/thot_conf_interv_cat.sh
@@ -64,7 +64,7 @@ bootstrap_eval()
     # Perform bootstrap experiments
     RANDOM=$seed
     n=1
-    while [ $n -lt $N ]; do
+    while [ $n -le $N ]; do
         bootstrap_exper >> "$TMP"/scef
         n=`expr $n + 1`
     done
diff --git a/utils/stack_dec/thot_conf_interv_smt.sh b/utils/stack_dec/thot_conf_interv_smt.sh
index fd68351..5d82a68 100644
--- a/utils/stack_dec/thot_conf_interv_smt.sh
+++ b/utils/stack_dec/thot_conf_interv_smt.sh
@@ -52,7 +52,7 @@ bootstrap_eval()
     # Perform bootstrap experiments
     RANDOM=$seed
     n=1
-    while [ $n -lt $N ]; do
+    while [ $n -le $N ]; do
         bootstrap_exper >> "$TMP"/scef
         n=`expr $n + 1`
     done
-- 
2.43.0


From ef038a7ff34fecd4e3f3325deee405c286e5c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 107/115] fix: thot_export_wordgraph did not escape quotes in
 labels

A word with a double quote or a backslash made the exported graph invalid.
---
 utils/error_correction/thot_export_wordgraph.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/error_correction/thot_export_wordgraph.sh b/utils/error_correction/thot_export_wordgraph.sh
index 428ca4b..0787e36 100644
--- a/utils/error_correction/thot_export_wordgraph.sh
+++ b/utils/error_correction/thot_export_wordgraph.sh
@@ -29,6 +29,7 @@ function export_wg_graphviz()
                   }
                   else
                   {
+                   gsub(/[\\"]/,"\\\\&")
                    printf "%s -> %s [ label = \"%s",$1,$2,$3
                    for(i=4;i<=NF;++i) 
                    {
-- 
2.43.0


From 48c2433139bf881afb95c7a8c5eb4d3d09aff7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:26 +0000
Subject: [PATCH 108/115] fix: thot_serialize_server_log did not find the end
 of very fast requests

Times such as 5.1e-05 or 1 were not recognized as the last line of a request,
so that the request was taken for incomplete.
---
 utils/stack_dec/thot_serialize_server_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stack_dec/thot_serialize_server_log.py b/utils/stack_dec/thot_serialize_server_log.py
index 1fa8e39..79da877 100644
--- a/utils/stack_dec/thot_serialize_server_log.py
+++ b/utils/stack_dec/thot_serialize_server_log.py
@@ -47,7 +47,7 @@ def is_first_request_line(line):
 
 
 def is_last_request_line(line):
-    match = re.search('0x[0-9a-f]+\tElapsed time: [0-9]+\.[0-9]+ secs', line)
+    match = re.search(r'0x[0-9a-f]+\tElapsed time: [-+.0-9e]+ secs', line)
 
     return match is not None
 
-- 
2.43.0


From e73e2e030b1d1d7335593beff782810f7f8fb8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:26 +0000
Subject: [PATCH 109/115] fix: thot_cat_using_client altered texts with
 backslashes, ampersands or other special characters

Strings were given to awk with -v, which processes escape sequences, so that
the user was simulated with other text than the one in the files (the prefix
sent could even be wrong), and the suggestions were printed through sed
expressions made of the text.
---
 utils/stack_dec/thot_cat_using_client.sh | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/utils/stack_dec/thot_cat_using_client.sh b/utils/stack_dec/thot_cat_using_client.sh
index c44e6e2..e172869 100644
--- a/utils/stack_dec/thot_cat_using_client.sh
+++ b/utils/stack_dec/thot_cat_using_client.sh
@@ -141,7 +141,9 @@ len_str()
 ########
 extend_pref()
 {
-    echo "" | "$AWK" -v ref="$1" -v hyp="$2" '{
+    echo "" | ref="$1" hyp="$2" "$AWK" '{
+                                         ref=ENVIRON["ref"]
+                                         hyp=ENVIRON["hyp"]
                                          refsize=split(ref,refa,"")
                                          hypsize=split(hyp,hypa,"")
                                          if(refsize>hypsize) size=hypsize
@@ -174,13 +176,13 @@ extend_pref()
 ########
 suffix()
 {
-    echo "" | "$AWK" -v pr="$1" -v newpref="$2" '{printf"%s",substr(newpref,length(pr)+1)}'
+    echo "" | pr="$1" newpref="$2" "$AWK" '{printf"%s",substr(ENVIRON["newpref"],length(ENVIRON["pr"])+1)}'
 }
 
 ########
 is_pref()
 {
-    echo "" | "$AWK" -v a="$1" -v b="$2" '{if(a==substr(b,1,length(a))){printf"1"}else{printf"0"}}'
+    echo "" | a="$1" b="$2" "$AWK" '{a=ENVIRON["a"]""; if(a==substr(ENVIRON["b"],1,length(a))){printf"1"}else{printf"0"}}'
 }
 
 ########
@@ -192,11 +194,14 @@ is_opt()
 ########
 get_hyp_with_prompt()
 {
-    aux=`echo "" | "$AWK" -v newpref="$2" '{printf"%s",substr(newpref,1,length(newpref)-1)}'`
-    aux_without_badsym=`echo "${aux}" | sed -e s'/\\\/<BSLASH>/g' | sed -e s"/\//<SLASH>/g" | sed -e s"/\[/<OSBRACKET>/g" | sed -e s"/\]/<CSBRACKET>/g"`
-    hyp_without_badsym=`echo "$1" | sed -e s'/\\\/<BSLASH>/g' | sed -e s"/\//<SLASH>/g" | sed -e s"/\[/<OSBRACKET>/g" | sed -e s"/\]/<CSBRACKET>/g"`
-    hyp_with_prompt=`echo "${hyp_without_badsym}" | sed -e s"/^${aux_without_badsym}/${aux_without_badsym}^/g"`
-    echo "${hyp_with_prompt}" | sed -e s'/<BSLASH>/\\/g' | sed -e s"/<SLASH>/\//g" | sed -e s"/<OSBRACKET>/\[/g" | sed -e s"/<CSBRACKET>/\]/g"
+    echo "" | hyp="$1" newpref="$2" "$AWK" '{
+                                         hyp=ENVIRON["hyp"]
+                                         newpref=ENVIRON["newpref"]
+                                         aux=substr(newpref,1,length(newpref)-1)
+                                         if(substr(hyp,1,length(aux))==aux)
+                                           hyp=aux"^"substr(hyp,length(aux)+1)
+                                         printf"%s\n",hyp
+                                        }'
 }
 
 ########
-- 
2.43.0


From 0ce9032f06117e2b76b515f0aec899d148309cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:39 +0000
Subject: [PATCH 110/115] fix: thot_dhs_nbl_rescore took the weights for the
 name of a file

The penalty of negative weights was never added when NON_NEG_CONST was given.
---
 utils/stack_dec/thot_dhs_nbl_rescore.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/stack_dec/thot_dhs_nbl_rescore.sh b/utils/stack_dec/thot_dhs_nbl_rescore.sh
index b64c743..476f143 100644
--- a/utils/stack_dec/thot_dhs_nbl_rescore.sh
+++ b/utils/stack_dec/thot_dhs_nbl_rescore.sh
@@ -11,7 +11,7 @@ calc_nnc_pen()
     we="$1"
     nnc="$2"
     pen_fact=$3
-    "$AWK" -v nnc="${nnc}" -v pen_fact=${pen_fact}\
+    echo "$we" | "$AWK" -v nnc="${nnc}" -v pen_fact=${pen_fact}\
                       'BEGIN{
                              result=0;
                              split(nnc,nnc_arr," ")
@@ -25,7 +25,7 @@ calc_nnc_pen()
                             }
                          END{
                              printf"%f",result
-                            }' "${we}"
+                            }'
 }
 
 ########
-- 
2.43.0


From 0d1852d6f9ed242797b62dc054196f45d5c8a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:39 +0000
Subject: [PATCH 111/115] fix: option -pm of the scripts that use thot_client
 asked for nothing

They called the client with -o, which it does not have, so that the server did
not print its models.
---
 utils/stack_dec/thot_cat_using_client.sh | 2 +-
 utils/stack_dec/thot_smt_using_client.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/stack_dec/thot_cat_using_client.sh b/utils/stack_dec/thot_cat_using_client.sh
index e172869..955fb99 100644
--- a/utils/stack_dec/thot_cat_using_client.sh
+++ b/utils/stack_dec/thot_cat_using_client.sh
@@ -477,7 +477,7 @@ done < $testfile
 
 # Print server models if required
 if [ ${pm_given} -eq 1 ]; then
-    "${bindir}"/thot_client -i $ip ${port_op} ${uid_op} -o "${pm_out_pref}" -v
+    "${bindir}"/thot_client -i $ip ${port_op} ${uid_op} -pr -v
 fi
 
 # Print experiment tail
diff --git a/utils/stack_dec/thot_smt_using_client.sh b/utils/stack_dec/thot_smt_using_client.sh
index 080ddb8..9b319f0 100644
--- a/utils/stack_dec/thot_smt_using_client.sh
+++ b/utils/stack_dec/thot_smt_using_client.sh
@@ -154,7 +154,7 @@ done < $testfile
 
 # Print server models if required
 if [ ${pm_given} -eq 1 ]; then
-    "${bindir}"/thot_client -i $ip ${port_op} ${uid_op} -o "${pm_out_pref}" || exit 1
+    "${bindir}"/thot_client -i $ip ${port_op} ${uid_op} -pr || exit 1
 fi
         
 # Return 0
-- 
2.43.0


From a05782fd29a57fa4b8a4e5001bf614016835be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:04 +0000
Subject: [PATCH 112/115] fix: a line of the server log could be mixed with
 those of other threads

The weights of a new user were printed in three steps; a request logged in
between lost its first line, and thot_serialize_server_log failed.
---
 src/stack_dec/ThotDecoder.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 4217b53..65e44ed 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -1456,9 +1456,12 @@ void ThotDecoder::set_catw(int user_id,
     
   if(verbose)
   {
-    StdCerrThreadSafe<<"user_id: "<<user_id<<", ";
-    tdPerUserVarsVec[idx].assistedTransPtr->printWeights(StdCerrThreadSafe);
-    StdCerrThreadSafe<<std::endl;
+        // NOTE: the line is printed at once, since other threads can
+        // also be printing
+    std::stringstream ss;
+    ss<<"user_id: "<<user_id<<", ";
+    tdPerUserVarsVec[idx].assistedTransPtr->printWeights(ss);
+    StdCerrThreadSafe<<ss.str()<<std::endl;
   }
 }
 
-- 
2.43.0


From ab6e9b52159e7e98819686ba77825a1317d2f92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:43 +0000
Subject: [PATCH 113/115] fix: the target functions for language models did not
 find the probabilities

---
 utils/incr_models/thot_dhs_trgfunc_interplm.sh | 2 +-
 utils/incr_models/thot_dhs_trgfunc_jmlm.sh     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/incr_models/thot_dhs_trgfunc_interplm.sh b/utils/incr_models/thot_dhs_trgfunc_interplm.sh
index d65bc82..1992efc 100644
--- a/utils/incr_models/thot_dhs_trgfunc_interplm.sh
+++ b/utils/incr_models/thot_dhs_trgfunc_interplm.sh
@@ -53,7 +53,7 @@ else
     echo "$weights" > ${LM}.weights
     "$bindir"/thot_pbs_ilm_perp -lm "${LM}" -c "${TEST}" -n ${ORDER} -i -v1 \
         -o "${SDIR}"/verbose_ppl ${qs_opt} "${QS}" -tdir "${SDIR}" -sdir "${SDIR}"
-    "${bindir}"/thot_obtain_info_from_verbose_ppl "${SDIR}"/verbose_ppl > "${SDIR}"/ppl_info
+    "${bindir}"/thot_obtain_info_from_verbose_ppl "${SDIR}"/verbose_ppl.ilmp_err > "${SDIR}"/ppl_info
 
     ppl_with_oovw=`cat "${SDIR}"/ppl_info | grep "Perplexity:" | "$AWK" '{printf"%s",$2}'`
     ppl_without_oovw=`cat "${SDIR}"/ppl_info | grep "Perplexity without OOV" | "$AWK" '{printf"%s",$NF}'`
diff --git a/utils/incr_models/thot_dhs_trgfunc_jmlm.sh b/utils/incr_models/thot_dhs_trgfunc_jmlm.sh
index 215fcf0..1fde1d7 100644
--- a/utils/incr_models/thot_dhs_trgfunc_jmlm.sh
+++ b/utils/incr_models/thot_dhs_trgfunc_jmlm.sh
@@ -71,7 +71,7 @@ else
     echo "$ORDER $NUMBUCK $BUCKSIZE $weights" > "${LM}".weights
     "$bindir"/thot_pbs_ilm_perp -lm "${LM}" -c "${TEST}" -n ${ORDER} ${CPERP_FLAG} -v1 \
         -o "${SDIR}"/verbose_ppl ${qs_opt} "${QS}" -tdir "${SDIR}" -sdir "${SDIR}"  
-    "${bindir}"/thot_obtain_info_from_verbose_ppl "${SDIR}"/verbose_ppl > "${SDIR}"/ppl_info
+    "${bindir}"/thot_obtain_info_from_verbose_ppl "${SDIR}"/verbose_ppl.ilmp_err > "${SDIR}"/ppl_info
 
     ppl_with_oovw=`cat "${SDIR}"/ppl_info | grep "Perplexity:" | "$AWK" '{printf"%s",$2}'`
     ppl_without_oovw=`cat "${SDIR}"/ppl_info | grep "Perplexity without OOV" | "$AWK" '{printf"%s",$NF}'`
-- 
2.43.0


From c73f80162a1892aa6b64ba31ecd5571044bcbdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:43 +0000
Subject: [PATCH 114/115] fix: thot_pbs_ilm_perp did not name the file with the
 errors

---
 utils/incr_models/thot_pbs_ilm_perp.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/incr_models/thot_pbs_ilm_perp.sh b/utils/incr_models/thot_pbs_ilm_perp.sh
index 19a3e7d..157aa46 100644
--- a/utils/incr_models/thot_pbs_ilm_perp.sh
+++ b/utils/incr_models/thot_pbs_ilm_perp.sh
@@ -62,13 +62,13 @@ report_errors()
     num_err=`$GREP "Error while executing thot_ilm_perp" ${outfile}.ilmp_log | wc -l`
     if [ ${num_err} -gt 0 ]; then
         echo "Error during the execution of thot_pbs_ilm_perp (thot_ilm_perp)" >&2
-        if [ -f "${output}.ilmp_err" ]; then
-            echo "File ${output}.ilmp_err contains information for error diagnosing" >&2
+        if [ -f "${outfile}.ilmp_err" ]; then
+            echo "File ${outfile}.ilmp_err contains information for error diagnosing" >&2
         fi
     else
         echo "Synchronization error" >&2
-        if [ -f "${output}.ilmp_err" ]; then
-            echo "File ${output}.ilmp_err contains information for error diagnosing" >&2
+        if [ -f "${outfile}.ilmp_err" ]; then
+            echo "File ${outfile}.ilmp_err contains information for error diagnosing" >&2
         fi
     fi
 }
-- 
2.43.0


From f4ecd1017186aa9d9d720e56f5df53fe6f807600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:36 +0000
Subject: [PATCH 115/115] fix: verbose requests of the server shared the
 buffers of localtime and asctime

---
 src/stack_dec/thot_server.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index 8429e86..5c00b7a 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -410,11 +410,16 @@ void* process_request(void* void_ptr)
   {
         // Current date/time based on current system
     time_t now = time(0);
-        // Convert now to tm struct for local timezone
-    tm* localtm = localtime(&now);
+        // Convert now to tm struct for local timezone (localtime() and
+        // asctime() are not used since they share static buffers among
+        // threads)
+    tm localtm;
+    char timeStr[64]="";
+    localtime_r(&now,&localtm);
+    strftime(timeStr,sizeof(timeStr),"%a %b %e %H:%M:%S %Y\n",&localtm);
     StdCerrThreadSafeCond(printTid)<<"----------------------------------------------------"<<std::endl;
     StdCerrThreadSafeCond(printTid)<<"Processing new request..."<<std::endl;
-    StdCerrThreadSafeCond(printTid)<<"Current time: "<<asctime(localtm);
+    StdCerrThreadSafeCond(printTid)<<"Current time: "<<timeStr;
     StdCerrThreadSafeCond(printTid)<<"Origin: "<<inet_ntoa(rdata.sin_addr)<<std::endl;
     StdCerrThreadSafeCond(printTid)<<"Request type: "<<rdata.request_type<<std::endl;
   }
-- 
2.43.0

