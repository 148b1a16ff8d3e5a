From 81293ab1a4bf36b4ec87ed39109540bfb382abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 01/84] fix: keep the source state when converting to a log
 weight transducer

---
 libhfst/src/implementations/ConvertLogWeightTransducer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/implementations/ConvertLogWeightTransducer.cc b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
index 2441430..e45cd77 100644
--- a/libhfst/src/implementations/ConvertLogWeightTransducer.cc
+++ b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
@@ -267,6 +267,7 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
                             hfst_state_to_state_id(tr_it->get_target_state(),
                                                    state_map, t)));
         }
+        source_state++;
     }
 
     // Go through the final states
-- 
2.43.0


From 2b01b18b885a9b5c13952c41785899e0c8e1d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 02/84] fix: do not carry name and properties over to the next
 transducer of a stream

---
 libhfst/src/HfstInputStream.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstInputStream.cc b/libhfst/src/HfstInputStream.cc
index e262f77..cf7459d 100644
--- a/libhfst/src/HfstInputStream.cc
+++ b/libhfst/src/HfstInputStream.cc
@@ -661,6 +661,10 @@ namespace hfst
   void HfstInputStream::process_header_data
   (StringPairVector &header_data, bool )
   {
+    // Forget the header of the previous transducer in this stream.
+    name.clear();
+    props.clear();
+
     if (header_data.size() < 2) {
       HFST_THROW_MESSAGE(TransducerHeaderException,
                          "Hfst header has too few attributes");
@@ -707,14 +711,14 @@ namespace hfst
     if (header_data.size() == 2)
       return;
 
-    // (3) third optional pair "name", (string)
-    if (header_data[2].first.compare("name") == 0) {
-      name = header_data[2].second;
-    }
+    // (3) optional pairs: "name", (string) and other properties, in any order
     for (StringPairVector::const_iterator prop = header_data.begin();
          prop != header_data.end();
          ++prop)
       {
+        if (prop->first.compare("name") == 0) {
+          name = prop->second;
+        }
         props[prop->first] = prop->second;
       }
   }
-- 
2.43.0


From 5eb071f0299a7732e7af9ddea41f440e381c615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:39 +0000
Subject: [PATCH 03/84] fix: do not read past the index table of an optimized
 lookup transducer

---
 .../optimized-lookup/find_epsilon_loops.cc               | 5 +++++
 .../src/implementations/optimized-lookup/transducer.cc   | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
index e759db9..a2394f6 100644
--- a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
+++ b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
@@ -123,6 +123,11 @@ void Transducer::find_loop_index(SymbolNumber input,
                                       unsigned int input_pos,
                                       TransitionTableIndex i)
 {
+    // symbols that are never input symbols have no index
+    if (i+input >= header->index_table_size())
+    {
+        return;
+    }
     if (tables->get_index_input(i+input) == input)
     {
         find_loop_transitions(input,
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 7919015..29e921a 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -563,6 +563,11 @@ void Transducer::find_index(SymbolNumber input,
                             unsigned int output_pos,
                             TransitionTableIndex i)
 {
+    // symbols that are never input symbols have no index
+    if (i+input >= header->index_table_size())
+    {
+        return;
+    }
     if (tables->get_index_input(i+input) == input)
     {
         find_transitions(input,
@@ -920,6 +925,10 @@ TransitionTableIndexSet Transducer::get_transitions_from_state(
                     ++transition_i;
                 }
             } else { // not a flag
+                // symbols that are never input symbols have no index
+                if (state_index+1+symbol >= header->index_table_size()) {
+                    continue;
+                }
                 const TransitionIndex& test_transition_index =
                     get_index(state_index+1+symbol);
                 if(test_transition_index.matches(symbol)) {
-- 
2.43.0


From ffe40dd9f8cac4c5cf807a9702deba766d499150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 04/84] fix: report a read error on a transducer stream instead
 of an end of stream

---
 libhfst/src/HfstInputStream.cc                          | 6 +++++-
 libhfst/src/implementations/FomaTransducer.cc           | 4 ++++
 libhfst/src/implementations/HfstOlTransducer.cc         | 8 +++++++-
 libhfst/src/implementations/LogWeightTransducer.cc      | 9 ++++++++-
 libhfst/src/implementations/SfstTransducer.cc           | 4 ++++
 libhfst/src/implementations/TropicalWeightTransducer.cc | 9 ++++++++-
 6 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstInputStream.cc b/libhfst/src/HfstInputStream.cc
index cf7459d..12437bd 100644
--- a/libhfst/src/HfstInputStream.cc
+++ b/libhfst/src/HfstInputStream.cc
@@ -281,8 +281,12 @@ namespace hfst
 
   bool HfstInputStream::stream_eof()
   {
-    if (input_stream != 0)
+    if (input_stream != 0) {
+      if (input_stream->bad()) {
+        HFST_THROW(StreamNotReadableException);
+      }
       return input_stream->eof();
+    }
     return is_eof();
   }
 
diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index 2afc03d..e5d0eab 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -97,6 +97,10 @@ namespace hfst { namespace implementations {
   {
     int c = getc(input_file);
     bool retval = (feof(input_file) != 0);
+    // a read error is not an end of stream
+    if (ferror(input_file))
+      {
+        HFST_THROW(StreamNotReadableException); }
     ungetc(c, input_file);
     return retval;
   }
diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index c87475f..b6d3bc1 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -52,7 +52,13 @@ namespace hfst { namespace implementations
   }
   bool HfstOlInputStream::is_eof(void) const
   {
-    return input_stream.peek() == EOF;
+    bool retval = (input_stream.peek() == EOF);
+    // a read error is not an end of stream
+    if (input_stream.bad() ||
+        (retval && &input_stream == &std::cin && ferror(stdin)))
+      {
+        HFST_THROW(StreamNotReadableException); }
+    return retval;
   }
   bool HfstOlInputStream::is_bad(void) const
   {
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index d2ec0fd..68bb815 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -91,7 +91,14 @@ LogWeightInputStream::close(void)
 bool
 LogWeightInputStream::is_eof(void) const
 {
-    return input_stream.peek() == EOF;
+    bool retval = (input_stream.peek() == EOF);
+    // a read error is not an end of stream
+    if (input_stream.bad()
+        || (retval && &input_stream == &std::cin && ferror(stdin)))
+    {
+        HFST_THROW(StreamNotReadableException);
+    }
+    return retval;
 }
 bool
 LogWeightInputStream::is_bad(void) const
diff --git a/libhfst/src/implementations/SfstTransducer.cc b/libhfst/src/implementations/SfstTransducer.cc
index fc1c0e3..e415539 100644
--- a/libhfst/src/implementations/SfstTransducer.cc
+++ b/libhfst/src/implementations/SfstTransducer.cc
@@ -74,6 +74,10 @@ namespace hfst { namespace implementations {
   {
     int c = getc(input_file);
     bool retval = (feof(input_file) != 0);
+    // a read error is not an end of stream
+    if (ferror(input_file))
+      {
+        HFST_THROW(StreamNotReadableException); }
     ungetc(c, input_file);
     return retval;
   }
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 00f067f..97e63cf 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -1354,7 +1354,14 @@ TropicalWeightInputStream::close(void)
 bool
 TropicalWeightInputStream::is_eof(void) const
 {
-    return input_stream.peek() == EOF;
+    bool retval = (input_stream.peek() == EOF);
+    // a read error is not an end of stream
+    if (input_stream.bad()
+        || (retval && &input_stream == &std::cin && ferror(stdin)))
+    {
+        HFST_THROW(StreamNotReadableException);
+    }
+    return retval;
 }
 bool
 TropicalWeightInputStream::is_bad(void) const
-- 
2.43.0


From 26196a5e8c83b1220622b0468c1623b51529c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 05/84] fix: refuse an OpenFst transducer whose symbol table is
 cut

---
 libhfst/src/implementations/LogWeightTransducer.cc      | 7 +++++++
 libhfst/src/implementations/TropicalWeightTransducer.cc | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index 68bb815..cf7b503 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -186,6 +186,13 @@ LogWeightInputStream::read_transducer()
             t = static_cast<LogFst *>(
                 LogFst::Read(input_stream, FstReadOptions(filename, &header)));
         }
+        // OpenFst ignores a symbol table that ends too early
+        if (t != NULL && (header.GetFlags() & FstHeader::HAS_ISYMBOLS)
+            && t->InputSymbols() == NULL)
+        {
+            delete t;
+            t = NULL;
+        }
         if (t == NULL)
         { // throw TransducerHasWrongTypeException();
             HFST_THROW(TransducerHasWrongTypeException);
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 97e63cf..50fd757 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -1449,6 +1449,13 @@ TropicalWeightInputStream::read_transducer()
             t = static_cast<StdVectorFst *>(StdVectorFst::Read(
                 input_stream, FstReadOptions(filename, &header)));
         }
+        // OpenFst ignores a symbol table that ends too early
+        if (t != NULL && (header.GetFlags() & FstHeader::HAS_ISYMBOLS)
+            && t->InputSymbols() == NULL)
+        {
+            delete t;
+            t = NULL;
+        }
         if (t == NULL)
         {
             HFST_THROW(TransducerHasWrongTypeException);
-- 
2.43.0


From 25b1097c3ab4387eef52fdaa60fb601a1af6982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 06/84] fix: refuse an SFST transducer whose alphabet is cut

---
 back-ends/sfst/alphabet.cc                    | 11 ++++++-----
 libhfst/src/implementations/SfstTransducer.cc |  5 ++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/back-ends/sfst/alphabet.cc b/back-ends/sfst/alphabet.cc
index 7203815..76d6c25 100644
--- a/back-ends/sfst/alphabet.cc
+++ b/back-ends/sfst/alphabet.cc
@@ -645,7 +645,8 @@ namespace SFST {
 
     // read the symbol mapping
     Character n=0;
-    read_num(&n, sizeof(n), file);
+    if (read_num(&n, sizeof(n), file) != sizeof(n))
+      throw "Error1 occurred while reading alphabet!\n";
     for( unsigned i=0; i<n; i++) {
       char buffer[BUFFER_SIZE];
       Character c;
@@ -662,13 +663,13 @@ namespace SFST {
     }
 
     // read the character pairs
-    read_num(&n, sizeof(n), file);
-    if (ferror(file))
+    if (read_num(&n, sizeof(n), file) != sizeof(n) || ferror(file))
       throw "Error2 occurred while reading alphabet!\n";
     for( unsigned i=0; i<n; i++) {
       Character lc, uc;
-      read_num(&lc, sizeof(lc), file);
-      read_num(&uc, sizeof(uc), file);
+      if (read_num(&lc, sizeof(lc), file) != sizeof(lc) ||
+          read_num(&uc, sizeof(uc), file) != sizeof(uc))
+        throw "Error3 occurred while reading alphabet!\n";
       insert(Label(lc, uc));
     }
     if (ferror(file))
diff --git a/libhfst/src/implementations/SfstTransducer.cc b/libhfst/src/implementations/SfstTransducer.cc
index e415539..211fd48 100644
--- a/libhfst/src/implementations/SfstTransducer.cc
+++ b/libhfst/src/implementations/SfstTransducer.cc
@@ -159,9 +159,8 @@ namespace hfst { namespace implementations {
     Transducer * t = NULL;
     try
       {
-        // DEBUGGING
-        assert (stream_get() == 'a');
-        stream_unget('a');
+        if (! is_fst())
+          throw "not an SFST transducer";
 
         Transducer * t = new Transducer(input_file,true);
 
-- 
2.43.0


From ec40b64b8d564e00a08b94a9078fc9844a9b8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 07/84] fix: refuse a foma transducer that is cut instead of
 reading past it

---
 libhfst/src/implementations/FomaTransducer.cc | 90 +++++++++++--------
 1 file changed, 51 insertions(+), 39 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index e5d0eab..b98fde0 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -864,22 +864,21 @@ namespace hfst { namespace implementations {
 
     // HFST additions
 
-    static int io_gets(FILE *infile, char *target);
+    static bool io_gets(FILE *infile, std::string &target);
     static inline int explode_line (char *buf, int *values);
 
     /* Read foma transducer . */
     fsm * FomaTransducer::read_net(FILE *infile) {
 
-    const unsigned int READ_BUF_SIZE=4096;
-    char buf[READ_BUF_SIZE];
+    std::string buf;
     fsm *net;
     struct fsm_state * fsm_;
 
-    char *new_symbol;
+    size_t new_symbol;
     int i, items, new_symbol_number, laststate, lineint[5], *cm;
     char last_final = 0;
 
-    if (io_gets(infile, buf) == 0) {
+    if (! io_gets(infile, buf) || buf.empty()) {
         return NULL;
     }
 
@@ -887,18 +886,22 @@ namespace hfst { namespace implementations {
     net = fsm_create(empty);
     free(empty);
 
-    if (strcmp(buf, "##foma-net 1.0##") != 0) {
+    if (buf != "##foma-net 1.0##") {
         printf("File format error foma!\n");
         return NULL;
     }
-    io_gets(infile, buf);
-    if (strcmp(buf, "##props##") != 0) {
+    if (! io_gets(infile, buf) || buf != "##props##") {
         printf("File format error props!\n");
         return NULL;
     }
     /* Properties */
-    io_gets(infile, buf);
-    sscanf(buf, "%i %i %i %i %i " LONG_LONG_SPECIFIER " %i %i %i %i %i %i %s",
+    if (! io_gets(infile, buf)) {
+        return NULL;
+    }
+    // The name at the end of the line is not read because we want to leave the
+    // empty name we've written earlier and use HFST3's name scheme
+    // for everything.
+    if (12 != sscanf(buf.c_str(), "%i %i %i %i %i " LONG_LONG_SPECIFIER " %i %i %i %i %i %i",
            &net->arity,
            &net->arccount,
            &net->statecount,
@@ -910,30 +913,29 @@ namespace hfst { namespace implementations {
            &net->is_minimized,
            &net->is_epsilon_free,
            &net->is_loop_free,
-           &net->is_completed,
-           buf);
-    // The following strcpy is commented out because we want to leave the
-    // empty name we've written earlier and use HFST3's name scheme
-    // for everything. NB: There's a limit of 40 chars for net->name.
-    //strcpy(net->name, buf);
-    io_gets(infile, buf);
+           &net->is_completed)) {
+        return NULL;
+    }
 
     /* Sigma */
-    if (strcmp(buf, "##sigma##") != 0) {
+    if (! io_gets(infile, buf) || buf != "##sigma##") {
         printf("File format error sigma!\n");
         return NULL;
     }
     for (;;) {
-      io_gets(infile, buf);
+        if (! io_gets(infile, buf)) {
+            return NULL;
+        }
         if (buf[0] == '#') break;
-        new_symbol = strstr(buf, " ");
-        new_symbol[0] = '\0';
-        new_symbol++;
-        sscanf(buf,"%i", &new_symbol_number);
-        sigma_add_number(net->sigma, new_symbol, new_symbol_number);
+        new_symbol = buf.find(' ');
+        if (new_symbol == std::string::npos ||
+            1 != sscanf(buf.c_str(),"%i", &new_symbol_number)) {
+            return NULL;
+        }
+        sigma_add_number(net->sigma, &buf[new_symbol + 1], new_symbol_number);
     }
     /* States */
-    if (strcmp(buf, "##states##") != 0) {
+    if (buf != "##states##") {
         printf("File format error!\n");
         return NULL;
     }
@@ -943,14 +945,19 @@ namespace hfst { namespace implementations {
     fsm_ = net->states;
     laststate = -1;
     for (i=0; ;i++) {
-      io_gets(infile, buf);
+        if (! io_gets(infile, buf)) {
+            return NULL;
+        }
         if (buf[0] == '#') break;
+        if (i >= net->linecount) {
+            return NULL;
+        }
 
         /* scanf is just too slow here */
         //items = sscanf(buf, "%i %i %i %i %i",&lineint[0],
         //&lineint[1], &lineint[2], &lineint[3], &lineint[4]);
 
-        items = explode_line(buf, &lineint[0]);
+        items = explode_line(&buf[0], &lineint[0]);
 
         switch (items) {
         case 2:
@@ -998,40 +1005,45 @@ namespace hfst { namespace implementations {
         }
 
     }
-    if (strcmp(buf, "##cmatrix##") == 0) {
+    if (buf == "##cmatrix##") {
         cmatrix_init(net);
         cm = net->medlookup->confusion_matrix;
         for (;;) {
-      io_gets(infile, buf);
+            if (! io_gets(infile, buf)) {
+                return NULL;
+            }
             if (buf[0] == '#') break;
-            sscanf(buf,"%i", &i);
+            sscanf(buf.c_str(),"%i", &i);
             *cm = i;
             cm++;
         }
     }
-    if (strcmp(buf, "##end##") != 0) {
+    if (buf != "##end##") {
         printf("File format error!\n");
         return NULL;
     }
     return(net);
 }
 
-static int io_gets(FILE *infile, char *target) {
-    int i;
+/* Read a line. Return false if the line is not complete, i.e. if the stream
+   ends or cannot be read before the end of the line. */
+static bool io_gets(FILE *infile, std::string &target) {
+    target.clear();
     int c = getc(infile);
-    for (i = 0; c != '\n' && c != '\0'; i++) {
-        *(target+i) = c;
+    while (c != '\n' && c != '\0') {
+        if (c == EOF)
+          return false;
+        target.push_back((char)c);
         c = getc(infile);
     }
-    *(target+i) = '\0';
 
     // Windows...
-    if (*(target+i-1) == '\r')
-      *(target+i-1) = '\0';
+    if (! target.empty() && target[target.size()-1] == '\r')
+      target.erase(target.size()-1);
 
     if (c == '\0')
       ungetc(c, infile);
-    return(i);
+    return true;
 }
 
 static inline int explode_line (char *buf, int *values) {
-- 
2.43.0


From bb4fc90a18f3c6a3e1ef1bbe785c5a14fd3c5d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 08/84] fix: write nothing of a transducer whose header is too
 long

---
 libhfst/src/HfstOutputStream.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/HfstOutputStream.cc b/libhfst/src/HfstOutputStream.cc
index 0f1c3da..33c5f29 100644
--- a/libhfst/src/HfstOutputStream.cc
+++ b/libhfst/src/HfstOutputStream.cc
@@ -423,11 +423,6 @@ HfstOutputStream::append_implementation_specific_header_data(std::vector<char>&,
 
       append_implementation_specific_header_data(header, transducer);
 
-      // write the field that identifies the header as an HFST header
-      write("HFST");
-      write('\0');
-
-      // write header length using two bytes
       int header_length = (int)header.size();
       if (header_length > MAX_HEADER_LENGTH) {
         //fprintf(stderr, "ERROR: transducer header is too long\n");
@@ -435,6 +430,11 @@ HfstOutputStream::append_implementation_specific_header_data(std::vector<char>&,
         HFST_THROW_MESSAGE(HfstFatalException, "transducer header is too long");
       }
 
+      // write the field that identifies the header as an HFST header
+      write("HFST");
+      write('\0');
+
+      // write header length using two bytes
       char first_byte = *((char*)(&header_length));
       char second_byte = *((char*)(&header_length)+1);
       write(first_byte);
-- 
2.43.0


From 167c9001ef1fb272c0ecaa2de27a91bf06a28a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:13 +0000
Subject: [PATCH 09/84] fix: do not take a stream that ends after a header for
 a complete one

---
 libhfst/src/HfstInputStream.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libhfst/src/HfstInputStream.cc b/libhfst/src/HfstInputStream.cc
index 12437bd..0c4ab44 100644
--- a/libhfst/src/HfstInputStream.cc
+++ b/libhfst/src/HfstInputStream.cc
@@ -751,6 +751,13 @@ namespace hfst
         get_header_data(header_size);
       process_header_data(header_info, false);           // throws error
 
+      // a header must be followed by a transducer
+      if (input_stream != NULL)
+        (void)input_stream->peek();
+      if (stream_eof()) {
+        HFST_THROW(EndOfStreamException);
+      }
+
       bytes_read = header_bytes + size_bytes + header_size;
       return true;
       }
-- 
2.43.0


From ef0e7f37a4d872b81cf2c4d7affa5e91a0cb8a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:13 +0000
Subject: [PATCH 10/84] fix: refuse an OpenFst transducer whose header is cut

---
 libhfst/src/implementations/LogWeightTransducer.cc     | 10 ++++++++--
 .../src/implementations/TropicalWeightTransducer.cc    | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index cf7b503..fcce982 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -176,13 +176,19 @@ LogWeightInputStream::read_transducer()
     {
         if (filename.empty())
         {
-            header.Read(input_stream, "STDIN");
+            if (!header.Read(input_stream, "STDIN"))
+            {
+                HFST_THROW(TransducerHasWrongTypeException);
+            }
             t = static_cast<LogFst *>(
                 LogFst::Read(input_stream, FstReadOptions("STDIN", &header)));
         }
         else
         {
-            header.Read(input_stream, filename);
+            if (!header.Read(input_stream, filename))
+            {
+                HFST_THROW(TransducerHasWrongTypeException);
+            }
             t = static_cast<LogFst *>(
                 LogFst::Read(input_stream, FstReadOptions(filename, &header)));
         }
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 50fd757..ac8cb85 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -1439,13 +1439,19 @@ TropicalWeightInputStream::read_transducer()
     {
         if (filename.empty())
         {
-            header.Read(input_stream, "STDIN");
+            if (!header.Read(input_stream, "STDIN"))
+            {
+                HFST_THROW(TransducerHasWrongTypeException);
+            }
             t = static_cast<StdVectorFst *>(StdVectorFst::Read(
                 input_stream, FstReadOptions("STDIN", &header)));
         }
         else
         {
-            header.Read(input_stream, filename);
+            if (!header.Read(input_stream, filename))
+            {
+                HFST_THROW(TransducerHasWrongTypeException);
+            }
             t = static_cast<StdVectorFst *>(StdVectorFst::Read(
                 input_stream, FstReadOptions(filename, &header)));
         }
-- 
2.43.0


From b362a5c27786c96b6252ae8e9cca864325092799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:06 +0000
Subject: [PATCH 11/84] fix: report a failed write of a transducer stream

Errors when writing or closing an HfstOutputStream (disk full, I/O error)
were ignored or only printed, and the caller was told that all went well.
---
 libhfst/src/implementations/FomaTransducer.cc         | 11 +++++++++--
 libhfst/src/implementations/HfstOlTransducer.cc       |  6 ++++++
 libhfst/src/implementations/LogWeightTransducer.cc    |  6 ++++++
 libhfst/src/implementations/SfstTransducer.cc         | 10 ++++++++--
 .../src/implementations/TropicalWeightTransducer.cc   |  6 ++++++
 5 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index b98fde0..811420b 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -198,8 +198,14 @@ namespace hfst { namespace implementations {
 
   void FomaOutputStream::close(void)
   {
+    bool failed = (ferror(ofile) != 0);
     if (filename != std::string())
-      { fclose(ofile); }
+      { failed = (fclose(ofile) != 0) || failed; }
+    else
+      { failed = (fflush(ofile) != 0) || failed; }
+    if (failed)
+      HFST_THROW_MESSAGE(HfstFatalException,
+                         "an error happened when closing a stream");
   }
 
   void FomaOutputStream::write(const char &c)
@@ -209,7 +215,8 @@ namespace hfst { namespace implementations {
 
     void FomaOutputStream::write_transducer(fsm * transducer)
   {
-    if (1 != FomaTransducer::write_net(transducer, ofile)) {
+    if (1 != FomaTransducer::write_net(transducer, ofile)
+        || fflush(ofile) != 0 || ferror(ofile)) {
       HFST_THROW_MESSAGE
         (HfstFatalException,
          "an error happened when writing a foma transducer");
diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index b6d3bc1..559db2c 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -199,6 +199,9 @@ void HfstOlInputStream::ignore(unsigned int n)
     if (!output_stream)
       fprintf(stderr, "HfstOlOutputStream: ERROR: failbit set (1).\n");
     transducer->write(output_stream);
+    if (!output_stream.flush())
+      HFST_THROW_MESSAGE(HfstFatalException,
+                         "an error happened when writing a transducer");
   }
   
   void HfstOlOutputStream::open(void) {}
@@ -206,6 +209,9 @@ void HfstOlInputStream::ignore(unsigned int n)
   {
     if (filename != string())
       { o_stream.close(); }
+    if (!output_stream.flush())
+      HFST_THROW_MESSAGE(HfstFatalException,
+                         "an error happened when closing a stream");
   }
 
   void HfstOlOutputStream::write(const char &c)
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index fcce982..d5d4e9d 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -250,6 +250,9 @@ LogWeightOutputStream::write_transducer(LogFst *transducer)
     fst::SymbolTable output_st(*(transducer->InputSymbols()));
     transducer->SetOutputSymbols(&output_st);
     transducer->Write(output_stream, FstWriteOptions());
+    if (!output_stream.flush())
+        HFST_THROW_MESSAGE(HfstFatalException,
+                           "an error happened when writing a transducer");
 }
 
 void
@@ -259,6 +262,9 @@ LogWeightOutputStream::close(void)
     {
         o_stream.close();
     }
+    if (!output_stream.flush())
+        HFST_THROW_MESSAGE(HfstFatalException,
+                           "an error happened when closing a stream");
 }
 
 void
diff --git a/libhfst/src/implementations/SfstTransducer.cc b/libhfst/src/implementations/SfstTransducer.cc
index 211fd48..8e113f4 100644
--- a/libhfst/src/implementations/SfstTransducer.cc
+++ b/libhfst/src/implementations/SfstTransducer.cc
@@ -198,8 +198,14 @@ namespace hfst { namespace implementations {
 
   void SfstOutputStream::close(void)
   {
+    bool failed = (ferror(ofile) != 0);
     if (filename != std::string())
-      { fclose(ofile); }
+      { failed = (fclose(ofile) != 0) || failed; }
+    else
+      { failed = (fflush(ofile) != 0) || failed; }
+    if (failed)
+      HFST_THROW_MESSAGE(HfstFatalException,
+                         "an error happened when closing a stream");
   }
 
     void SfstOutputStream::append_implementation_specific_header_data
@@ -229,7 +235,7 @@ namespace hfst { namespace implementations {
     void SfstOutputStream::write_transducer(Transducer * transducer)
   {
     transducer->store(ofile);
-    if (fflush(ofile) != 0) {
+    if (fflush(ofile) != 0 || ferror(ofile)) {
       HFST_THROW_MESSAGE(HfstFatalException,
                          "An error happened when writing an SfstTransducer.");
     }
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index ac8cb85..0d84d09 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -3308,6 +3308,9 @@ TropicalWeightOutputStream::write_transducer(StdVectorFst *transducer)
     transducer->Write(output_stream, FstWriteOptions());
     if (output_st != NULL)
         delete output_st;
+    if (!output_stream.flush())
+        HFST_THROW_MESSAGE(HfstFatalException,
+                           "an error happened when writing a transducer");
 }
 
 void
@@ -3317,6 +3320,9 @@ TropicalWeightOutputStream::close(void)
     {
         o_stream.close();
     }
+    if (!output_stream.flush())
+        HFST_THROW_MESSAGE(HfstFatalException,
+                           "an error happened when closing a stream");
 }
 }
 }
-- 
2.43.0


From aff5bb2db595eb8ddcd3bd123427b635ce2f0e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 12/84] fix: do not read past the index table in hfst-proc and
 hfst-optimized-lookup

---
 tools/src/hfst-optimized-lookup.cc  | 7 ++++++-
 tools/src/hfst-proc/lookup-state.cc | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/tools/src/hfst-optimized-lookup.cc b/tools/src/hfst-optimized-lookup.cc
index 65e3171..50c27a0 100644
--- a/tools/src/hfst-optimized-lookup.cc
+++ b/tools/src/hfst-optimized-lookup.cc
@@ -1046,6 +1046,11 @@ Transducer::find_index(SymbolNumber input, SymbolNumber *input_symbol,
     std::cout << "find_index " << i << "\t" << indices[i + input]->get_input()
               << std::endl;
 #endif
+    if (indices.size() <= i + input)
+    {
+        return;
+    }
+
     if (indices[i + input]->get_input() == input)
     {
         find_transitions(
@@ -1711,7 +1716,7 @@ TransducerW::find_index(SymbolNumber input, SymbolNumber *input_symbol,
 #if OL_FULL_DEBUG
     std::cerr << "find index " << i << " " << current_weight << std::endl;
 #endif
-    if (indices.size() <= i)
+    if (indices.size() <= i + input)
     {
         return;
     }
diff --git a/tools/src/hfst-proc/lookup-state.cc b/tools/src/hfst-proc/lookup-state.cc
index b7b9d8f..246ce21 100644
--- a/tools/src/hfst-proc/lookup-state.cc
+++ b/tools/src/hfst-proc/lookup-state.cc
@@ -271,6 +271,10 @@ LookupState::try_index(LookupPathVector& new_paths,
                          const LookupPath& path,
                          const SymbolNumber input) const
 {
+  // the last states of the table may have no entry for this symbol
+  if(path.get_index()+input+1 >= transducer.get_header().index_table_size())
+    return false;
+
   //??? is the +1 here correct?
   TransitionIndex index = transducer.get_index(path.get_index()+input+1);
   
-- 
2.43.0


From ae9cb34cf71993e7bb6caf593ae7dc147529ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 13/84] fix: report a transducer file that cannot be opened
 instead of an empty stream

---
 libhfst/src/implementations/HfstOlTransducer.cc         | 5 ++++-
 libhfst/src/implementations/LogWeightTransducer.cc      | 2 ++
 libhfst/src/implementations/TropicalWeightTransducer.cc | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index 559db2c..0b757c0 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -21,7 +21,10 @@ namespace hfst { namespace implementations
     filename(std::string(filename)),
     i_stream(filename.c_str(), std::ios::in | std::ios::binary),
     input_stream(i_stream),weighted(weighted)
-  {}
+  {
+    if (!i_stream)
+      HFST_THROW(StreamNotReadableException);
+  }
 
   HfstOlInputStream::HfstOlInputStream
   (std::istream &is, bool weighted):
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index d5d4e9d..a7399c0 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -31,6 +31,8 @@ LogWeightInputStream::LogWeightInputStream(void)
 LogWeightInputStream::LogWeightInputStream(const std::string &filename_)
     : filename(filename_), i_stream(filename.c_str()), input_stream(i_stream)
 {
+    if (!i_stream)
+        HFST_THROW(StreamNotReadableException);
 }
 
 LogWeightInputStream::LogWeightInputStream(std::istream &is) : input_stream(is)
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 0d84d09..de9095e 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -281,6 +281,8 @@ TropicalWeightInputStream::TropicalWeightInputStream(
       i_stream(filename.c_str(), std::ios::in | std::ios::binary),
       input_stream(i_stream)
 {
+    if (!i_stream)
+        HFST_THROW(StreamNotReadableException);
 }
 
 TropicalWeightInputStream::TropicalWeightInputStream(std::istream &is)
-- 
2.43.0


From 9e03fbbd673c3b8a4bbb5a99e04ebdbfd742c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 14/84] fix: report output that hfst-xfst could not write

---
 libhfst/src/parsers/XfstCompiler.cc |  78 ++++++++++++++++------
 libhfst/src/parsers/XfstCompiler.h  |   8 +++
 libhfst/src/parsers/xfst-parser.yy  | 100 ++++++++++++++--------------
 3 files changed, 117 insertions(+), 69 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 52b364a..71c9b25 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -343,7 +343,12 @@ XfstCompiler::~XfstCompiler()
 int
 XfstCompiler::xfst_fclose(FILE *f, const char *name)
 {
+    bool failed = (ferror(f) != 0);
     int retval = fclose(f);
+    if (failed)
+    {
+        retval = EOF;
+    }
     if (retval != 0)
     {
         error() << "could not close file " << name << std::endl;
@@ -353,6 +358,18 @@ XfstCompiler::xfst_fclose(FILE *f, const char *name)
     return retval;
 }
 
+void
+XfstCompiler::close_output(std::ofstream &os, const char *name)
+{
+    os.close();
+    if (!os)
+    {
+        error() << "could not write to file " << name << std::endl;
+        flush(&error());
+        xfst_fail();
+    }
+}
+
 FILE *
 XfstCompiler::xfst_fopen(const char *path, const char *mode)
 {
@@ -3843,6 +3860,7 @@ XfstCompiler::write_dot(const char *name, std::ostream *oss_)
     }
     GET_TOP(tmp);
     hfst::print_dot(outfile, *tmp);
+    xfst_fclose(outfile, name);
     PROMPT_AND_RETURN_THIS;
 }
 XfstCompiler &
@@ -3904,6 +3922,33 @@ XfstCompiler::write_function(const char *name, const char *outfile)
         }*/
     PROMPT_AND_RETURN_THIS;
 }
+
+void
+XfstCompiler::write_networks(const std::vector<HfstTransducer *> &nets,
+                             const char *filename, ImplementationType type)
+{
+    try
+    {
+        auto outstream
+            = (filename != 0)
+                  ? std::make_unique<HfstOutputStream>(filename, type)
+                  : std::make_unique<HfstOutputStream>(type);
+        for (HfstTransducer *net : nets)
+        {
+            *outstream << *net;
+        }
+        outstream->close();
+    }
+    catch (const HfstException &e)
+    {
+        error() << "could not write to file "
+                << (filename != 0 ? filename : "<stdout>") << ": " << e.what()
+                << std::endl;
+        flush(&error());
+        xfst_fail();
+    }
+}
+
 XfstCompiler &
 XfstCompiler::write_definition(const char *name, const char *outfile)
 {
@@ -3914,14 +3959,11 @@ XfstCompiler::write_definition(const char *name, const char *outfile)
         PROMPT_AND_RETURN_THIS;
     }
 
-    auto outstream = (outfile != 0)
-                         ? std::make_unique<HfstOutputStream>(outfile, format_)
-                         : std::make_unique<HfstOutputStream>(format_);
     HfstTransducer tmp(*(definitions_[name]));
     if (variables_["name-nets"] == "ON")
         tmp.set_name(name);
-    *outstream << tmp;
-    outstream->close();
+    std::vector<HfstTransducer *> nets(1, &tmp);
+    write_networks(nets, outfile, format_);
     PROMPT_AND_RETURN_THIS;
 }
 XfstCompiler &
@@ -3934,16 +3976,18 @@ XfstCompiler::write_definitions(const char *outfile)
         PROMPT_AND_RETURN_THIS;
     }
 
-    auto outstream = (outfile != 0)
-                         ? std::make_unique<HfstOutputStream>(outfile, format_)
-                         : std::make_unique<HfstOutputStream>(format_);
+    std::vector<HfstTransducer> copies;
     for (auto &definition : definitions_)
     {
-        HfstTransducer tmp(*(definition.second));
-        tmp.set_name(definition.first);
-        *outstream << tmp;
+        copies.push_back(*(definition.second));
+        copies.back().set_name(definition.first);
+    }
+    std::vector<HfstTransducer *> nets;
+    for (auto &copy : copies)
+    {
+        nets.push_back(&copy);
     }
-    outstream->close();
+    write_networks(nets, outfile, format_);
     PROMPT_AND_RETURN_THIS;
 }
 
@@ -3984,24 +4028,20 @@ XfstCompiler::write_stack(const char *filename)
 
     CHECK_FILENAME(filename);
 
-    auto outstream
-        = (filename != 0)
-              ? std::make_unique<HfstOutputStream>(filename,
-                                                   stack_.top()->get_type())
-              : std::make_unique<HfstOutputStream>(stack_.top()->get_type());
     stack<HfstTransducer *> tmp;
     while (!stack_.empty())
     {
         tmp.push(stack_.top());
         stack_.pop();
     }
+    std::vector<HfstTransducer *> nets;
     while (!tmp.empty())
     {
-        *outstream << *(tmp.top());
+        nets.push_back(tmp.top());
         stack_.push(tmp.top());
         tmp.pop();
     }
-    outstream->close();
+    write_networks(nets, filename, stack_.top()->get_type());
     PROMPT_AND_RETURN_THIS;
 }
 XfstCompiler &
diff --git a/libhfst/src/parsers/XfstCompiler.h b/libhfst/src/parsers/XfstCompiler.h
index 00c3360..91111b3 100644
--- a/libhfst/src/parsers/XfstCompiler.h
+++ b/libhfst/src/parsers/XfstCompiler.h
@@ -28,6 +28,8 @@
 #include <string>
 #include <map>
 #include <stack>
+#include <vector>
+#include <fstream>
 
 #include "HfstTransducer.h"
 #include "XreCompiler.h"
@@ -532,6 +534,12 @@ class XfstCompiler
 
   /* A wrapper around file close function. */
   int xfst_fclose(FILE * f, const char * name);
+  /* Close a file to which output was redirected; report failed writing. */
+  void close_output(std::ofstream & os, const char * name);
+  /* Write transducers to a binary file (or standard output, if \a filename
+     is null); report failed writing. */
+  void write_networks(const std::vector<HfstTransducer*> & nets,
+                      const char * filename, ImplementationType type);
   /* A wrapper around file open function. */
   FILE * xfst_fopen(const char* path, const char* mode);
 
diff --git a/libhfst/src/parsers/xfst-parser.yy b/libhfst/src/parsers/xfst-parser.yy
index bb42dd7..51ab875 100644
--- a/libhfst/src/parsers/xfst-parser.yy
+++ b/libhfst/src/parsers/xfst-parser.yy
@@ -459,7 +459,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_aliases(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -471,7 +471,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_arc_count(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -493,7 +493,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             {
 	      std::ofstream oss($2);
               hfst::xfst::xfst_->print_defined(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -505,7 +505,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             {
 	      std::ofstream oss($3);
               hfst::xfst::xfst_->print_dir($2, &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $3);
 	    }
             free($3); CHECK;
        }
@@ -518,7 +518,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_dir("*", &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -530,7 +530,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             {
 	      std::ofstream oss($2);
               hfst::xfst::xfst_->print_file_info(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -542,7 +542,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_flags(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -558,7 +558,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             {
 	      std::ofstream oss($2);
               hfst::xfst::xfst_->print_labels(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	      }
 	      CHECK;
        }
@@ -570,7 +570,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_label_count(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -582,7 +582,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($3);
               hfst::xfst::xfst_->print_list($2, &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $3);
 	    }
             free($2); CHECK;
        }
@@ -595,7 +595,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             {
 	      std::ofstream oss($2);
               hfst::xfst::xfst_->print_list(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -608,7 +608,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_longest_string(&oss);
               //hfst::xfst::xfst_fclose(f, $2);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             CHECK;
        }
@@ -623,7 +623,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_longest_string_size(&oss);
               //hfst::xfst::xfst_fclose(f, $2);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             CHECK;
        }
@@ -637,7 +637,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_name(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -650,7 +650,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_shortest_string(&oss);
               //hfst::xfst::xfst_fclose(f, $2);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             CHECK;
        }
@@ -665,7 +665,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_shortest_string_size(&oss);
               //hfst::xfst::xfst_fclose(f, $2);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             CHECK;
        }
@@ -684,7 +684,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
               std::ofstream oss($4);
               hfst::xfst::xfst_->print_lower_words($2, hfst::xfst::nametoken_to_number($3), &oss);
               //hfst::xfst::xfst_fclose(f, $4);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $4);
 	    }
 	    free($2); free($3);
             CHECK;
@@ -711,7 +711,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
               else
                 hfst::xfst::xfst_->print_lower_words($2, 0, &oss);
               //hfst::xfst::xfst_fclose(f, $3);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $3);
 	    }
             free($2);
             CHECK;
@@ -722,7 +722,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_lower_words(NULL, 0, &oss);
               //hfst::xfst::xfst_fclose(f, $2);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             CHECK;
        }
@@ -735,7 +735,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             {
               std::ofstream oss($4);
               hfst::xfst::xfst_->print_random_lower($2, hfst::xfst::nametoken_to_number($3), &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $4);
 	      //hfst::xfst::xfst_fclose(f, $4);
 	    }
 	    free($2); free($3);
@@ -762,7 +762,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
               else
                 hfst::xfst::xfst_->print_random_lower($2, 15, &oss);
               //hfst::xfst::xfst_fclose(f, $3);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $3);
 	    }
             free($2); CHECK;
        }
@@ -772,7 +772,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_random_lower(NULL, 15, &oss);
               //hfst::xfst::xfst_fclose(f, $2);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             CHECK;
        }
@@ -786,7 +786,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
               std::ofstream oss($4);
               hfst::xfst::xfst_->print_upper_words($2, hfst::xfst::nametoken_to_number($3), &oss);
               //hfst::xfst::xfst_fclose(f, $4);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $4);
 	    }
 	    free($2); free($3);
             CHECK;
@@ -811,7 +811,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
                 hfst::xfst::xfst_->print_upper_words(NULL, i, &oss);
               else
                 hfst::xfst::xfst_->print_upper_words($2, 0, &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $3);
 	    }
             free($2); CHECK;
        }
@@ -820,7 +820,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_upper_words(NULL, 0, &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             CHECK;
        }
@@ -833,7 +833,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($4);
               hfst::xfst::xfst_->print_random_upper($2, hfst::xfst::nametoken_to_number($3), &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $4);
 	    }
 	    free($2); free($3);
             CHECK;
@@ -858,7 +858,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
                 hfst::xfst::xfst_->print_random_upper(NULL, i, &oss);
               else
                 hfst::xfst::xfst_->print_random_upper($2, 15, &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $3);
 	    }
             free($2); CHECK;
        }
@@ -867,7 +867,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_random_upper(NULL, 15, &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             CHECK;
        }
@@ -880,7 +880,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($4);
               hfst::xfst::xfst_->print_words($2, hfst::xfst::nametoken_to_number($3), &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $4);
 	    }
 	    free($2); free($3);
             CHECK;
@@ -905,7 +905,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
                 hfst::xfst::xfst_->print_words(NULL, i, &oss);
               else
                 hfst::xfst::xfst_->print_words($2, 0, &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $3);
 	    }
             free($2); CHECK;
        }
@@ -914,7 +914,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_words(NULL, 0, &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             CHECK;
        }
@@ -927,7 +927,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($4);
               hfst::xfst::xfst_->print_random_words($2, hfst::xfst::nametoken_to_number($3), &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $4);
 	    }
 	    free($2); free($3);
             CHECK;
@@ -952,7 +952,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
                 hfst::xfst::xfst_->print_random_words(NULL, i, &oss);
               else
                 hfst::xfst::xfst_->print_random_words($2, 15, &oss);
-            oss.close();
+            hfst::xfst::xfst_->close_output(oss, $3);
 	    }
             free($2); CHECK;
        }
@@ -961,7 +961,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_random_words(NULL, 15, &oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             CHECK;
        }
@@ -974,7 +974,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_net(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -993,7 +993,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_properties(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1006,7 +1006,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_sigma(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1018,7 +1018,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_sigma_count(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1040,7 +1040,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_sigma_word_count(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1056,7 +1056,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_size(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1068,7 +1068,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_stack(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1080,7 +1080,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->print_labelmaps(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1094,7 +1094,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->write_dot(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1132,7 +1132,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->write_prolog(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1141,7 +1141,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->write_prolog(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    free($2); CHECK;
        }
@@ -1153,7 +1153,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->write_spaced(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1165,7 +1165,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->write_text(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
 	    CHECK;
        }
@@ -1261,7 +1261,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->write_att(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             free($2); CHECK;
        }
@@ -1270,7 +1270,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->write_att(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             free($2); CHECK;
        }
@@ -1280,7 +1280,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
 	    {
               std::ofstream oss($2);
               hfst::xfst::xfst_->write_att(&oss);
-              oss.close();
+              hfst::xfst::xfst_->close_output(oss, $2);
 	    }
             free($2); free($3); free($4); CHECK;
        }
-- 
2.43.0


From ae47304731890fdd3e66dfa3f19c8b3a0617dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 15/84] fix: report output that the command line tools could
 not write

---
 tools/src/hfst-check-alpha.cc      |  5 +----
 tools/src/hfst-commandline.cc      | 36 ++++++++++++++++++++++++++++++
 tools/src/hfst-commandline.h       |  3 +++
 tools/src/hfst-compare.cc          |  6 +----
 tools/src/hfst-dump-alphabets.cc   |  5 +----
 tools/src/hfst-edit-metadata.cc    |  7 +++++-
 tools/src/hfst-flookup.cc          |  5 +----
 tools/src/hfst-fst2strings.cc      |  5 +++++
 tools/src/hfst-fst2txt.cc          |  5 +----
 tools/src/hfst-grep.cc             |  1 +
 tools/src/hfst-guess.cc            | 10 ++++++++-
 tools/src/hfst-lookup.cc           |  5 +----
 tools/src/hfst-optimized-lookup.cc |  6 +++++
 tools/src/hfst-pair-test.cc        |  5 +----
 tools/src/hfst-proc/hfst-proc.cc   |  9 ++++++++
 tools/src/hfst-summarize.cc        |  5 +----
 tools/src/sfst-main.cc             |  3 ++-
 17 files changed, 85 insertions(+), 36 deletions(-)

diff --git a/tools/src/hfst-check-alpha.cc b/tools/src/hfst-check-alpha.cc
index a9499f4..5a29f3f 100644
--- a/tools/src/hfst-check-alpha.cc
+++ b/tools/src/hfst-check-alpha.cc
@@ -368,10 +368,7 @@ main(int argc, char **argv)
 
     retval = process_stream(*firststream, *secondstream);
 
-    if (outfile != stdout)
-    {
-        fclose(outfile);
-    }
+    hfst_close_output(outfile, outfilename);
     free(firstfilename);
     free(secondfilename);
     free(outfilename);
diff --git a/tools/src/hfst-commandline.cc b/tools/src/hfst-commandline.cc
index dfd0925..319e635 100644
--- a/tools/src/hfst-commandline.cc
+++ b/tools/src/hfst-commandline.cc
@@ -29,6 +29,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <iostream>
 
 #ifndef _MSC_VER
 #include <unistd.h>
@@ -569,6 +570,40 @@ hfst_fopen(const char *filename, const char *mode)
     }
 }
 
+void
+hfst_close_output(FILE *f, const char *filename)
+{
+    errno = 0;
+    bool failed = (ferror(f) != 0);
+    if (f == stdout)
+    {
+        failed = (fflush(f) != 0) || failed;
+    }
+    else
+    {
+        failed = (fclose(f) != 0) || failed;
+    }
+    if (failed)
+    {
+        hfst_error(EXIT_FAILURE, errno, "Could not write to '%s'. ",
+                   filename);
+    }
+}
+
+// At exit: a program whose standard output is lost has not succeeded.
+static void
+check_standard_output()
+{
+    std::cout.flush();
+    if (fflush(stdout) != 0 || ferror(stdout) || std::cout.bad())
+    {
+        fprintf(stderr, "%s: Could not write to standard output.\n",
+                program_name);
+        fflush(NULL);
+        std::_Exit(EXIT_FAILURE);
+    }
+}
+
 void
 hfst_fseek(FILE *stream, long offset, int whence)
 {
@@ -955,6 +990,7 @@ hfst_set_program_name(const char *argv0, const char *version_vector,
                       const char *wikiname)
 {
     set_program_name(argv0);
+    atexit(check_standard_output);
     hfst_tool_version = hfst_strdup(version_vector);
     hfst_tool_wikiname = hfst_strdup(wikiname);
 }
diff --git a/tools/src/hfst-commandline.h b/tools/src/hfst-commandline.h
index b1a1116..a6b2daf 100644
--- a/tools/src/hfst-commandline.h
+++ b/tools/src/hfst-commandline.h
@@ -272,6 +272,9 @@ void *hfst_calloc(size_t nmemb, size_t size);
 /** @brief reallocate memory and exit cleanly on error */
 void *hfst_realloc(void *ptr, size_t size);
 
+/** @brief close output @c f, or flush it if it is @c stdout, and exit with an
+ *         error message if something that was written to it is lost. */
+void hfst_close_output(FILE *f, const char *filename);
 /**
  * @brief open file, or print informative error message and exit on failure.
  */
diff --git a/tools/src/hfst-compare.cc b/tools/src/hfst-compare.cc
index 5892102..524b9c5 100644
--- a/tools/src/hfst-compare.cc
+++ b/tools/src/hfst-compare.cc
@@ -252,7 +252,7 @@ compare_streams(HfstInputStream& firststream, HfstInputStream& secondstream)
     }
     firststream.close();
     secondstream.close();
-    fclose(outfile);
+    hfst_close_output(outfile, outfilename);
     if (mismatches == 0)
       {
         verbose_printf("All " SIZE_T_SPECIFIER " transducers matched\n", transducer_n_first);
@@ -314,10 +314,6 @@ int main( int argc, char **argv ) {
       }
 
     retval = compare_streams(*firststream, *secondstream);
-    if (outfile != stdout)
-    {
-        fclose(outfile);
-    }
     free(firstfilename);
     free(secondfilename);
     free(outfilename);
diff --git a/tools/src/hfst-dump-alphabets.cc b/tools/src/hfst-dump-alphabets.cc
index ea7124c..cd740f5 100644
--- a/tools/src/hfst-dump-alphabets.cc
+++ b/tools/src/hfst-dump-alphabets.cc
@@ -362,10 +362,7 @@ main(int argc, char **argv)
     }
     retval = process_stream(*instream);
 
-    if (outfile != stdout)
-    {
-        fclose(outfile);
-    }
+    hfst_close_output(outfile, outfilename);
     free(inputfilename);
     free(outfilename);
     return EXIT_SUCCESS;
diff --git a/tools/src/hfst-edit-metadata.cc b/tools/src/hfst-edit-metadata.cc
index 2802147..2d2c833 100644
--- a/tools/src/hfst-edit-metadata.cc
+++ b/tools/src/hfst-edit-metadata.cc
@@ -271,7 +271,8 @@ int main( int argc, char **argv ) {
     {
         fclose(inputfile);
     }
-    if (outfile != stdout)
+    bool print = print_all_properties || print_property != NULL;
+    if (outfile != stdout && !print)
     {
         fclose(outfile);
     }
@@ -292,6 +293,10 @@ int main( int argc, char **argv ) {
         std::make_unique<HfstOutputStream>(instream->get_type());
 
     retval = process_stream(*instream, *outstream);
+    if (print)
+    {
+        hfst_close_output(outfile, outfilename);
+    }
     free(inputfilename);
     free(outfilename);
     return retval;
diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index f0b871e..b6e376a 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -1875,10 +1875,7 @@ main(int argc, char **argv)
         return EXIT_FAILURE;
     }
     process_stream(*instream, outfile);
-    if (outfile != stdout)
-    {
-        fclose(outfile);
-    }
+    hfst_close_output(outfile, outfilename);
     free(inputfilename);
     free(outfilename);
     return EXIT_SUCCESS;
diff --git a/tools/src/hfst-fst2strings.cc b/tools/src/hfst-fst2strings.cc
index 0a4f668..b0521c1 100644
--- a/tools/src/hfst-fst2strings.cc
+++ b/tools/src/hfst-fst2strings.cc
@@ -703,6 +703,11 @@ main(int argc, char **argv)
     {
         std::ofstream outstream(outfilename);
         retval = process_stream(*instream, outstream);
+        outstream.close();
+        if (!outstream)
+        {
+            error(EXIT_FAILURE, 0, "Could not write to '%s'", outfilename);
+        }
     }
     else
         retval = process_stream(*instream, std::cout);
diff --git a/tools/src/hfst-fst2txt.cc b/tools/src/hfst-fst2txt.cc
index 2608c3f..01d9d65 100644
--- a/tools/src/hfst-fst2txt.cc
+++ b/tools/src/hfst-fst2txt.cc
@@ -292,10 +292,7 @@ process_stream(HfstInputStream& instream, FILE* outf)
     delete t;
     }
     instream.close();
-    if (outf != stdout)
-      {
-        fclose(outf);
-      }
+    hfst_close_output(outf, outfilename);
     return EXIT_SUCCESS;
 }
 
diff --git a/tools/src/hfst-grep.cc b/tools/src/hfst-grep.cc
index 8c0c4bc..bcd3289 100644
--- a/tools/src/hfst-grep.cc
+++ b/tools/src/hfst-grep.cc
@@ -800,6 +800,7 @@ main(int argc, char **argv)
         match_lines(infiles[i], infilenames[i]);
     }
 
+    hfst_close_output(outfile, outfilename);
     free(outfilename);
     return retval;
 }
diff --git a/tools/src/hfst-guess.cc b/tools/src/hfst-guess.cc
index 38dfcc7..a484678 100644
--- a/tools/src/hfst-guess.cc
+++ b/tools/src/hfst-guess.cc
@@ -378,7 +378,15 @@ int main( int argc, char **argv )
       }
 
     if (outfile != stdout)
-      { assert(out != &std::cout); delete out; }
+      {
+        assert(out != &std::cout);
+        out->flush();
+        if (! *out)
+          {
+            error(EXIT_FAILURE, 0, "Could not write to '%s'", outfilename);
+          }
+        delete out;
+      }
 
     free(inputfilename);
     free(outfilename);
diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index b55a8f3..3514d16 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -2147,10 +2147,7 @@ main(int argc, char **argv)
         return EXIT_FAILURE;
     }
     process_stream(*instream, outfile);
-    if (outfile != stdout)
-    {
-        fclose(outfile);
-    }
+    hfst_close_output(outfile, outfilename);
     free(inputfilename);
     free(outfilename);
     return EXIT_SUCCESS;
diff --git a/tools/src/hfst-optimized-lookup.cc b/tools/src/hfst-optimized-lookup.cc
index 50c27a0..a15ebd1 100644
--- a/tools/src/hfst-optimized-lookup.cc
+++ b/tools/src/hfst-optimized-lookup.cc
@@ -735,6 +735,12 @@ setup(FILE *f)
         return EXIT_FAILURE;
     }
 
+    std::cout.flush();
+    if (!std::cout)
+    {
+        std::cerr << "Could not write output\n";
+        return EXIT_FAILURE;
+    }
     return 0;
 }
 
diff --git a/tools/src/hfst-pair-test.cc b/tools/src/hfst-pair-test.cc
index 9c8995e..2cc2e0a 100644
--- a/tools/src/hfst-pair-test.cc
+++ b/tools/src/hfst-pair-test.cc
@@ -808,10 +808,7 @@ int main( int argc, char **argv ) {
       { fprintf(outfile,"Test failed.\n"); }
       }
 
-    if (outfile != stdout)
-    {
-        fclose(outfile);
-    }
+    hfst_close_output(outfile, outfilename);
     free(inputfilename);
     free(outfilename);
 
diff --git a/tools/src/hfst-proc/hfst-proc.cc b/tools/src/hfst-proc/hfst-proc.cc
index 7035bdf..74e1e42 100644
--- a/tools/src/hfst-proc/hfst-proc.cc
+++ b/tools/src/hfst-proc/hfst-proc.cc
@@ -546,6 +546,15 @@ main(int argc, char **argv)
     if (out_arg != -1)
     {
         dynamic_cast<std::ofstream *>(output)->close();
+    }
+    output->flush();
+    if (!*output)
+    {
+        std::cerr << "Could not write output" << std::endl;
+        return EXIT_FAILURE;
+    }
+    if (out_arg != -1)
+    {
         delete output;
     }
 
diff --git a/tools/src/hfst-summarize.cc b/tools/src/hfst-summarize.cc
index 04c0161..372268b 100644
--- a/tools/src/hfst-summarize.cc
+++ b/tools/src/hfst-summarize.cc
@@ -616,10 +616,7 @@ int main( int argc, char **argv ) {
     }
     retval = process_stream(*instream);
 
-    if (outfile != stdout)
-    {
-        fclose(outfile);
-    }
+    hfst_close_output(outfile, outfilename);
     free(inputfilename);
     free(outfilename);
     return EXIT_SUCCESS;
diff --git a/tools/src/sfst-main.cc b/tools/src/sfst-main.cc
index 70682d1..507dfe4 100644
--- a/tools/src/sfst-main.cc
+++ b/tools/src/sfst-main.cc
@@ -227,7 +227,8 @@ int main( int argc, char *argv[] )
           compiler->write_to_file(compiler->get_result(), NULL, strarg);
         }
       } catch (HfstException e) {
-          printf("\nAn error happened when writing to file \"%s\"\n", outfilename); }
+          fprintf(stderr, "\nAn error happened when writing to file \"%s\"\n", outfilename);
+          exit(1); }
 
       delete compiler->get_result();
 
-- 
2.43.0


From 01ecb146d139ce349a9e0e1160e65dbfba2e868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:15 +0000
Subject: [PATCH 16/84] fix: report input that could not be read instead of
 taking it for the end of input

---
 tools/src/hfst-commandline.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-commandline.cc b/tools/src/hfst-commandline.cc
index 319e635..f53a5b4 100644
--- a/tools/src/hfst-commandline.cc
+++ b/tools/src/hfst-commandline.cc
@@ -879,7 +879,7 @@ hfst_getdelim(char **lineptr, size_t *n, int delim, FILE *stream)
     errno = 0;
     ssize_t rv = -1;
     rv = getdelim(lineptr, n, delim, stream);
-    if ((rv < 0) && errno)
+    if ((rv < 0) && (errno || ferror(stream)))
     {
         hfst_error(EXIT_FAILURE, errno, "getdelim failed");
     }
@@ -892,7 +892,7 @@ hfst_getline(char **lineptr, size_t *n, FILE *stream)
     errno = 0;
     ssize_t rv = -1;
     rv = getline(lineptr, n, stream);
-    if ((rv < 0) && errno)
+    if ((rv < 0) && (errno || ferror(stream)))
     {
         hfst_error(EXIT_FAILURE, errno, "getline failed");
     }
-- 
2.43.0


From b104eb47afa91f68158d7e1f04eed12d955920f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:15 +0000
Subject: [PATCH 17/84] fix: hfst-optimized-lookup overran its buffers on long
 lines and ignored read errors

---
 tools/src/hfst-optimized-lookup.cc | 49 +++++++++++++++++-------------
 tools/src/hfst-optimized-lookup.h  | 29 +++++++++++++-----
 2 files changed, 50 insertions(+), 28 deletions(-)

diff --git a/tools/src/hfst-optimized-lookup.cc b/tools/src/hfst-optimized-lookup.cc
index a15ebd1..5cec99e 100644
--- a/tools/src/hfst-optimized-lookup.cc
+++ b/tools/src/hfst-optimized-lookup.cc
@@ -552,35 +552,29 @@ template <class genericTransducer>
 void
 runTransducer(genericTransducer T)
 {
-    SymbolNumber *input_string = (SymbolNumber *)(malloc(2000));
-    for (int i = 0; i < 1000; ++i)
-    {
-        input_string[i] = NO_SYMBOL_NUMBER;
-    }
-
-    char *str = (char *)(malloc(MAX_IO_STRING * sizeof(char)));
-    *str = 0;
-    char *old_str = str;
+    std::vector<SymbolNumber> input_string;
+    std::string line;
+    char *str = NULL;
 
     while (true)
     {
 #ifdef WINDOWS
         if (!pipe_input)
         {
-            free(str);
-            std::string linestr("");
-            if (!hfst::get_line_from_console(linestr,
+            line.clear();
+            if (!hfst::get_line_from_console(line,
                                              MAX_IO_STRING * sizeof(char)))
                 break;
-            str = strdup(linestr.c_str());
-            old_str = str;
         }
         else
 #endif
         {
-            if (!std::cin.getline(str, MAX_IO_STRING))
+            if (!std::getline(std::cin, line))
                 break;
         }
+        free(str);
+        str = strdup(line.c_str());
+        char *old_str = str;
 
         if (echoInputsFlag)
         {
@@ -591,14 +585,15 @@ runTransducer(genericTransducer T)
 #endif
                 std::cout << str << std::endl;
         }
-        int i = 0;
+        input_string.clear();
         SymbolNumber k = NO_SYMBOL_NUMBER;
         bool failed = false;
         for (char **Str = &str; **Str != 0;)
         {
             k = T.find_next_key(Str);
 #if OL_FULL_DEBUG
-            std::cout << "INPUT STRING ENTRY " << i << " IS " << k
+            std::cout << "INPUT STRING ENTRY " << input_string.size()
+                      << " IS " << k
                       << std::endl;
 #endif
             if (k == NO_SYMBOL_NUMBER)
@@ -610,8 +605,7 @@ runTransducer(genericTransducer T)
                 failed = true;
                 break;
             }
-            input_string[i] = k;
-            ++i;
+            input_string.push_back(k);
         }
         str = old_str;
         if (failed)
@@ -636,7 +630,7 @@ runTransducer(genericTransducer T)
             continue;
         }
 
-        input_string[i] = NO_SYMBOL_NUMBER;
+        input_string.push_back(NO_SYMBOL_NUMBER);
 
         if (time_cutoff > 0.0)
         {
@@ -645,9 +639,10 @@ runTransducer(genericTransducer T)
             limit_reached = false;
         }
 
-        T.analyze(input_string);
+        T.analyze(&input_string[0]);
         T.printAnalyses(std::string(str));
     }
+    free(str);
 }
 
 int
@@ -735,6 +730,11 @@ setup(FILE *f)
         return EXIT_FAILURE;
     }
 
+    if (ferror(stdin))
+    {
+        std::cerr << "Could not read input\n";
+        return EXIT_FAILURE;
+    }
     std::cout.flush();
     if (!std::cout)
     {
@@ -1147,6 +1147,13 @@ Transducer::get_analyses(SymbolNumber *input_symbol,
 #if OL_FULL_DEBUG
     std::cout << "get_analyses " << i << std::endl;
 #endif
+
+    // Endless loop protection
+    if (output_symbol > &output_string.back())
+    {
+        return;
+    }
+
     if (i >= TRANSITION_TARGET_TABLE_START)
     {
         i -= TRANSITION_TARGET_TABLE_START;
diff --git a/tools/src/hfst-optimized-lookup.h b/tools/src/hfst-optimized-lookup.h
index 8ac903a..5ba1c63 100644
--- a/tools/src/hfst-optimized-lookup.h
+++ b/tools/src/hfst-optimized-lookup.h
@@ -530,6 +530,23 @@ public:
         }
 };
 
+// Make room in output_string for the analyses of input_string, which ends
+// with NO_SYMBOL_NUMBER.
+inline void
+reserve_output(std::vector<SymbolNumber> &output_string,
+               const SymbolNumber *input_string)
+{
+    size_t length = 0;
+    while (input_string[length] != NO_SYMBOL_NUMBER)
+    {
+        ++length;
+    }
+    if (output_string.size() < 2 * length + 1000)
+    {
+        output_string.resize(2 * length + 1000, NO_SYMBOL_NUMBER);
+    }
+}
+
 class Transducer
 {
 protected:
@@ -541,7 +558,7 @@ protected:
     Encoder encoder;
     DisplayVector display_vector;
 
-    SymbolNumber * output_string;
+    std::vector<SymbolNumber> output_string;
 
     static const TransitionTableIndex START_INDEX = 0;
 
@@ -602,14 +619,10 @@ public:
         transition_reader(f,header.target_table_size()),
         encoder(keys,header.input_symbol_count()),
         display_vector(),
-        output_string((SymbolNumber*)(malloc(2000))),
         indices(index_reader()),
         transitions(transition_reader())
         {
-            for (int i = 0; i < 1000; ++i)
-            {
-                output_string[i] = NO_SYMBOL_NUMBER;
-            }
+            output_string.resize(1000, NO_SYMBOL_NUMBER);
             set_symbol_table();
         }
 
@@ -626,7 +639,8 @@ public:
 
     void analyze(SymbolNumber * input_string)
         {
-            get_analyses(input_string,output_string,output_string,START_INDEX);
+            reserve_output(output_string, input_string);
+            get_analyses(input_string, &output_string[0], &output_string[0], START_INDEX);
         }
 
     virtual void printAnalyses(std::string prepend);
@@ -1008,6 +1022,7 @@ public:
 
     void analyze(SymbolNumber * input_string)
         {
+            reserve_output(output_string, input_string);
             get_analyses(input_string, &output_string[0], &output_string[0], START_INDEX);
         }
 
-- 
2.43.0


From b3c5b34f94c12cbf7573738b4a146144348451f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:15 +0000
Subject: [PATCH 18/84] fix: buffer sizes in hfst-lookup and hfst-flookup
 (apertium input, spaced and cg output)

The apertium input format replaced the line buffer by a smaller one that the
next getline overran, and read past a final backslash. The output buffers were
too small for an empty line with print-space and for the %b and %a fields of
the cg format, which aborted or lost the end of the answer.
---
 tools/src/hfst-flookup.cc | 19 +++++++++----------
 tools/src/hfst-lookup.cc  | 19 +++++++++----------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index b6e376a..ec07a21 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -682,13 +682,13 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
             {
                 space += input_len;
             }
-            else if (*f == 'l')
+            else if (*f == 'l' || *f == 'b' || *f == 'a')
             {
                 space += lookup_len;
             }
             else if (*f == 'w')
             {
-                space += strlen("0.012345678901234567890");
+                space += 64; // "%f" of a float takes at most 47 characters
             }
             else if (*f == '\0')
             {
@@ -705,8 +705,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
     if (result != NULL)
     {
         lookupform = static_cast<char *>(malloc(
-            sizeof(char) * lookup_len
-            + sizeof(char) * strlen(space_format) * (lookup_len - 1) + 1));
+            sizeof(char) * (lookup_len + 1)));
         char *p = lookupform;
         bool first = true;
         for (vector<string>::const_iterator s = result->second.begin();
@@ -748,8 +747,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
     if (input != NULL)
     {
         inputform = static_cast<char *>(malloc(
-            sizeof(char) * input_len
-            + sizeof(char) * strlen(space_format) * (input_len - 1) + 1));
+            sizeof(char) * (input_len + 1)));
         char *p = inputform;
         bool first = true;
         for (vector<string>::const_iterator s = input->second.begin();
@@ -792,7 +790,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
         space += 2 * strlen(markup);
     }
     char *res = static_cast<char *>(calloc(sizeof(char), space * 32 + 1));
-    size_t space_left = space;
+    size_t space_left = space + 1;
     const char *src = format;
     char *dst = res;
     char *i; // %i
@@ -1137,7 +1135,7 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
                     m++;
                     continue;
                 }
-                else if (*p == '\\')
+                else if (*p == '\\' && *(p + 1) != '\0')
                 {
                     p++;
                     *real_s = *p;
@@ -1151,8 +1149,9 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
             }
         } // for each character in input
         vector<string> *path = string_to_utf8(sp);
-        free(*s);
-        *s = sp;
+        // the caller keeps the buffer (and its size) for the next line
+        strcpy(*s, sp);
+        free(sp);
         rv->second = *path;
         break;
     }
diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index 3514d16..0334b74 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -696,13 +696,13 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
             {
                 space += input_len;
             }
-            else if (*f == 'l')
+            else if (*f == 'l' || *f == 'b' || *f == 'a')
             {
                 space += lookup_len;
             }
             else if (*f == 'w')
             {
-                space += strlen("0.012345678901234567890");
+                space += 64; // "%f" of a float takes at most 47 characters
             }
             else if (*f == '\0')
             {
@@ -719,8 +719,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
     if (result != NULL)
     {
         lookupform = static_cast<char *>(malloc(
-            sizeof(char) * lookup_len
-            + sizeof(char) * strlen(space_format) * (lookup_len - 1) + 1));
+            sizeof(char) * (lookup_len + 1)));
         char *p = lookupform;
         bool first = true;
         for (vector<string>::const_iterator s = result->second.begin();
@@ -762,8 +761,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
     if (input != NULL)
     {
         inputform = static_cast<char *>(malloc(
-            sizeof(char) * input_len
-            + sizeof(char) * strlen(space_format) * (input_len - 1) + 1));
+            sizeof(char) * (input_len + 1)));
         char *p = inputform;
         bool first = true;
         for (vector<string>::const_iterator s = input->second.begin();
@@ -806,7 +804,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
         space += 2 * strlen(markup);
     }
     char *res = static_cast<char *>(calloc(sizeof(char), space * 32 + 1));
-    size_t space_left = space;
+    size_t space_left = space + 1;
     const char *src = format;
     char *dst = res;
     char *i; // %i
@@ -1151,7 +1149,7 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
                     m++;
                     continue;
                 }
-                else if (*p == '\\')
+                else if (*p == '\\' && *(p + 1) != '\0')
                 {
                     p++;
                     *real_s = *p;
@@ -1165,8 +1163,9 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
             }
         } // for each character in input
         vector<string> *path = string_to_utf8(sp);
-        free(*s);
-        *s = sp;
+        // the caller keeps the buffer (and its size) for the next line
+        strcpy(*s, sp);
+        free(sp);
         rv->second = *path;
         break;
     }
-- 
2.43.0


From b7fc1b2a4cce4506624398587d8038fb98036d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:42 +0000
Subject: [PATCH 19/84] fix: leave hfst-pair-test.cc out of the output checks
 of the tools

---
 tools/src/hfst-pair-test.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/src/hfst-pair-test.cc b/tools/src/hfst-pair-test.cc
index 2cc2e0a..9c8995e 100644
--- a/tools/src/hfst-pair-test.cc
+++ b/tools/src/hfst-pair-test.cc
@@ -808,7 +808,10 @@ int main( int argc, char **argv ) {
       { fprintf(outfile,"Test failed.\n"); }
       }
 
-    hfst_close_output(outfile, outfilename);
+    if (outfile != stdout)
+    {
+        fclose(outfile);
+    }
     free(inputfilename);
     free(outfilename);
 
-- 
2.43.0


From 4eca72c6fcc5263bcc5a08b28f4f658082afa93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:44 +0000
Subject: [PATCH 20/84] fix: symbols met in lookup became part of an
 optimized-lookup transducer

Saving, copying or converting a transducer after looking up an unknown
character wrote more symbols than the header announces.
---
 libhfst/src/implementations/ConvertOlTransducer.cc        | 6 +++---
 libhfst/src/implementations/HfstOlTransducer.cc           | 5 ++++-
 libhfst/src/implementations/optimized-lookup/transducer.h | 6 +++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/libhfst/src/implementations/ConvertOlTransducer.cc b/libhfst/src/implementations/ConvertOlTransducer.cc
index 00bd4f7..9a6ec4f 100644
--- a/libhfst/src/implementations/ConvertOlTransducer.cc
+++ b/libhfst/src/implementations/ConvertOlTransducer.cc
@@ -83,9 +83,9 @@ unsigned int hfst_ol_to_hfst_basic_add_state
       bool weighted = t->get_header().probe_flag(hfst_ol::Weighted);
       const hfst_ol::SymbolTable& symbols
         = t->get_alphabet().get_symbol_table();
-      for (hfst_ol::SymbolTable::const_iterator it = symbols.begin();
-           it != symbols.end(); ++it) {
-          basic->add_symbol_to_alphabet(*it);
+      // symbols added by lookup are not part of the transducer
+      for (hfst_ol::SymbolNumber i = 0; i < t->get_alphabet().get_orig_symbol_count(); ++i) {
+          basic->add_symbol_to_alphabet(symbols[i]);
       }
       
       /* This contains indices to either (1) the start of a set of entries
diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index 0b757c0..54fa0ba 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -460,7 +460,10 @@ void HfstOlInputStream::ignore(unsigned int n)
 StringSet HfstOlTransducer::get_alphabet(hfst_ol::Transducer * t)
 {
     hfst_ol::SymbolTable symbol_table = t->get_alphabet().get_symbol_table();
-    return StringSet(symbol_table.begin(), symbol_table.end());
+    // symbols added by lookup are not part of the transducer
+    return StringSet(symbol_table.begin(),
+                     symbol_table.begin()
+                         + t->get_alphabet().get_orig_symbol_count());
 }
 
 }
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.h b/libhfst/src/implementations/optimized-lookup/transducer.h
index 0df910f..11826d1 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.h
+++ b/libhfst/src/implementations/optimized-lookup/transducer.h
@@ -407,10 +407,10 @@ public:
   
     void write(std::ostream& os) const
         {
-            for(SymbolTable::const_iterator i = symbol_table.begin();
-                i != symbol_table.end(); i++)
+            // symbols added by lookup are not part of the transducer
+            for(SymbolNumber i = 0; i < orig_symbol_count; i++)
             {
-                os << *i;
+                os << symbol_table[i];
                 os.put('\0');
             }
         }
-- 
2.43.0


From 6e3eb590db97e94ed14cfaaabcf4744b4faeefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:44 +0000
Subject: [PATCH 21/84] fix: optimized-lookup loop detection forgot the states
 of earlier positions

After a consuming transition the traversal states were left cleared, so an
epsilon loop was entered again without end.
---
 .../implementations/optimized-lookup/find_epsilon_loops.cc   | 5 ++++-
 libhfst/src/implementations/optimized-lookup/transducer.cc   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
index a2394f6..2428dd0 100644
--- a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
+++ b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
@@ -109,8 +109,11 @@ void Transducer::find_loop_transitions(SymbolNumber input,
     while (tables->get_transition_input(i) != NO_SYMBOL_NUMBER) {
         if (tables->get_transition_input(i) == input) {
             // We're not going to find an epsilon / flag loop
-            traversal_states.clear();
+            // (at the positions before this one we still may)
+            TraversalStates old_states;
+            traversal_states.swap(old_states);
             find_loop(input_pos, tables->get_transition_target(i));
+            traversal_states.swap(old_states);
             found_transition = true;
         } else {
             return;
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 29e921a..2affe47 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -535,7 +535,9 @@ void Transducer::find_transitions(SymbolNumber input,
         {
             Weight old_weight = current_weight;
             // We're not going to find an epsilon / flag loop
-            traversal_states.clear();
+            // (at the positions before this one we still may)
+            TraversalStates old_states;
+            traversal_states.swap(old_states);
             SymbolNumber output = tables->get_transition_output(i);
             if (alphabet->is_meta_arc(output)) {
                 // we got here via default, identity or unknown, so look
@@ -547,6 +549,7 @@ void Transducer::find_transitions(SymbolNumber input,
             get_analyses(input_pos,
                          output_pos + 1,
                          tables->get_transition_target(i));
+            traversal_states.swap(old_states);
             current_weight = old_weight;
             found_transition = true;
         }
-- 
2.43.0


From 2a765d35be171a8a5ac654d40825ba06f0ba230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:44 +0000
Subject: [PATCH 22/84] fix: optimized-lookup took a symbol known only as
 output for an unknown one

---
 .../src/implementations/optimized-lookup/transducer.cc    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 2affe47..37bdb6d 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -330,8 +330,12 @@ bool Transducer::initialize_input(const char * input)
             memcpy(new_symbol, *input_str_ptr, bytes_to_tokenize);
             new_symbol[bytes_to_tokenize] = '\0';
             (*input_str_ptr) += bytes_to_tokenize;
-            alphabet->add_symbol(new_symbol);
-            k = hfst::size_t_to_uint(alphabet->get_symbol_table().size() - 1);
+            // (unless it is known, but only as an output symbol)
+            k = alphabet->symbol_from_string(new_symbol);
+            if (k == NO_SYMBOL_NUMBER) {
+                alphabet->add_symbol(new_symbol);
+                k = hfst::size_t_to_uint(alphabet->get_symbol_table().size() - 1);
+            }
             encoder->read_input_symbol(new_symbol, k);
             delete [] new_symbol;
         }
-- 
2.43.0


From ab5da0ef96cff35477a7d909428d31710be4b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:05 +0000
Subject: [PATCH 23/84] fix: hfst-lookup -t did not end on infinitely ambiguous
 input unless optimized

The lookup in HfstBasicTransducer knows no time cutoff, yet a time cutoff
switched the limit on the number of cycles off.
---
 tools/src/hfst-lookup.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index 0334b74..64cbf8d 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -1493,8 +1493,8 @@ lookup_simple(const HfstOneLevelPath &s, HfstBasicTransducer &t,
         s, cascade_symbols_seen[transducer_number],
         cascade_unknown_or_identity_seen[transducer_number]);
 
-    if (possible && time_cutoff == 0.0
-        && t.is_lookup_infinitely_ambiguous(s, obey_flags))
+    // this lookup knows no time cutoff, so the number of cycles must be limited
+    if (possible && t.is_lookup_infinitely_ambiguous(s, obey_flags))
     {
         if (!silent && infinite_cutoff > 0)
         {
-- 
2.43.0


From 21ec3ee5495c895e9f71eae50a69a2ec835235e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:48 +0000
Subject: [PATCH 24/84] fix: random paths had the weight of the abandoned
 continuation

When a random path ended in a dead end, its end was cut off, but not the
weight of that end, and the final weight was missing.
---
 libhfst/src/implementations/TropicalWeightTransducer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index de9095e..3a316b3 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -3023,6 +3023,10 @@ random_path_(StdVectorFst *t)
        that \a last_index constitute the longest path that is recognized by
        transducer \a t so far. */
     int last_index = 0;
+    /* The weight of that path. */
+    float last_weight = is_epsilon_path_accepted
+                            ? t->Final(t->Start()).Value()
+                            : 0;
 
     unsigned int num_states = t->NumStates();
 
@@ -3062,6 +3066,7 @@ random_path_(StdVectorFst *t)
             {
                 path.second.pop_back();
             }
+            path.first = last_weight;
             if (!is_epsilon_path_accepted && path.second.size() == 0)
                 throw "cannot extract random path";
             return path;
@@ -3093,6 +3098,7 @@ random_path_(StdVectorFst *t)
                     return path;
                 } // or continue.
                 last_index = (int)path.second.size();
+                last_weight = path.first + t->Final(t_target).Value();
             }
 
             /* Give more probability for shorter paths. */
-- 
2.43.0


From 8dc41fd9a5b0145f5d467311bff0f43589630c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:39 +0000
Subject: [PATCH 25/84] fix: hfst-tokenize did not flush the answer to a line
 without tokens

---
 tools/src/hfst-tokenize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/src/hfst-tokenize.cc b/tools/src/hfst-tokenize.cc
index 436cd16..d921674 100644
--- a/tools/src/hfst-tokenize.cc
+++ b/tools/src/hfst-tokenize.cc
@@ -456,6 +456,7 @@ process_input(hfst_ol::PmatchContainer &container, std::ostream &outstream)
             {
                 maybe_erase_newline(input_text);
                 match_and_print(container, outstream, input_text, settings);
+                outstream.flush();
                 input_text.clear();
             }
             else
@@ -480,6 +481,7 @@ process_input(hfst_ol::PmatchContainer &container, std::ostream &outstream)
             input_text = line;
             maybe_erase_newline(input_text);
             match_and_print(container, outstream, input_text, settings);
+            outstream.flush();
             free(line);
             line = NULL;
         }
-- 
2.43.0


From 0e5eef093983dcf0c6b775d8f56c2e58939b6b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:39 +0000
Subject: [PATCH 26/84] fix: HfstTransducer::prune dropped paths and changed
 the type of the transducer

It is documented to make the transducer coaccessible, but removed every
path worse than the best one.
---
 libhfst/src/HfstTransducer.cc                           | 2 ++
 libhfst/src/implementations/TropicalWeightTransducer.cc | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 62f5245..c329d2b 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -2186,6 +2186,7 @@ HfstTransducer::prune()
 {
 #if HAVE_OPENFST
     // slow for xfsm type...
+    ImplementationType original_type = this->type;
     this->convert(TROPICAL_OPENFST_TYPE);
     fst::StdVectorFst *temp
         = hfst::implementations::TropicalWeightTransducer::prune(
@@ -2193,6 +2194,7 @@ HfstTransducer::prune()
     this->tropical_ofst_interface.delete_transducer(
         this->implementation.tropical_ofst);
     this->implementation.tropical_ofst = temp;
+    this->convert(original_type);
     return *this;
 #endif
     HFST_THROW(FunctionNotImplementedException);
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 3a316b3..675e75c 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2064,8 +2064,12 @@ TropicalWeightTransducer::remove_epsilons(StdVectorFst *t)
 StdVectorFst *
 TropicalWeightTransducer::prune(StdVectorFst *t)
 {
-    StdVectorFst *retval = new StdVectorFst();
-    fst::Prune(*t, retval, TropicalWeight::One());
+    StdVectorFst *retval = t->Copy();
+    fst::Connect(retval);
+    if (retval->Start() == fst::kNoStateId)
+    {
+        retval->SetStart(retval->AddState());
+    }
     return retval;
 }
 
-- 
2.43.0


From a0c0a9fcebda28bbd6930efc5cce650480c18924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:01 +0000
Subject: [PATCH 27/84] fix: SFST remove_epsilons could drop paths after other
 operations on the same transducer

---
 back-ends/sfst/fst.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/back-ends/sfst/fst.cc b/back-ends/sfst/fst.cc
index fb8bce6..7acfc99 100644
--- a/back-ends/sfst/fst.cc
+++ b/back-ends/sfst/fst.cc
@@ -1160,6 +1160,21 @@ namespace SFST {
   }
 
 
+  /* Other operations leave their own pointers in 'forward', and one of these
+     can be equal to the address of a node of the copy. */
+
+  static void clear_forward( Node *node, VType vmark ) {
+
+    if (node->was_visited( vmark ))
+      return;
+    node->set_forward(NULL);
+    for( ArcsIter it(node->arcs()); it; it++ ) {
+      Arc *arc=it;
+      clear_forward(arc->target_node(), vmark);
+    }
+  }
+
+
   /*******************************************************************/
   /*                                                                 */
   /*  Transducer::remove_epsilons                                    */
@@ -1174,6 +1189,8 @@ namespace SFST {
 
     nodeindexing();
     incr_vmark();
+    clear_forward(root_node(), vmark);
+    incr_vmark();
     Transducer *copy_tr = new Transducer();
     copy_tr->alphabet.copy(alphabet);
     map<int, Node*> mapper;
-- 
2.43.0


From 8d021f26b02a1870b2252c8a72bc3770e2f46abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 28/84] fix: hfst-insert-freely inserted into the first
 transducer of a stream only

---
 tools/src/hfst-insert-freely.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tools/src/hfst-insert-freely.cc b/tools/src/hfst-insert-freely.cc
index 6bb2cb0..b87cc07 100644
--- a/tools/src/hfst-insert-freely.cc
+++ b/tools/src/hfst-insert-freely.cc
@@ -229,8 +229,6 @@ process_stream(HfstInputStream& instream, HfstOutputStream& outstream)
         transducer_n++;
         HfstTransducer trans(instream);
         char* inputname = hfst_get_name(trans, inputfilename);
-        if (transducer_n==1)
-        {
 //            If harmonize is true, then identity and unknown symbols in the
 //    transducer will be exapanded byt the symbols in symbol
 //    pair. Otherwise they aren't.
@@ -239,10 +237,9 @@ process_stream(HfstInputStream& instream, HfstOutputStream& outstream)
 
 // StringPair("a", "a")
 
-          trans.insert_freely(*symbol_pair, harmonise_flags);
-          hfst_set_name(trans, trans, "insert-freely");
-          hfst_set_formula(trans, trans, "Id");
-        }
+        trans.insert_freely(*symbol_pair, harmonise_flags);
+        hfst_set_name(trans, trans, "insert-freely");
+        hfst_set_formula(trans, trans, "Id");
         outstream << trans;
         free(inputname);
     }
-- 
2.43.0


From 5dc9eac5cb57c4c783104cdbf8ab4dcc72c5c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 29/84] fix: hfst-tail without -n took all transducers instead
 of the last one

---
 tools/src/hfst-tail.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-tail.cc b/tools/src/hfst-tail.cc
index 477e0fc..bec6852 100644
--- a/tools/src/hfst-tail.cc
+++ b/tools/src/hfst-tail.cc
@@ -53,7 +53,7 @@ using hfst::HfstOutputStream;
 
 
 // add tools-specific variables here
-long tail_count = -1;
+long tail_count = 1;
 
 void
 print_usage()
-- 
2.43.0


From 2087fc50e1a052b9f85802df94d9776ff490861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 30/84] fix: hfst-substitute -F applied the file to the first
 transducer of a stream only

---
 tools/src/hfst-substitute.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/src/hfst-substitute.cc b/tools/src/hfst-substitute.cc
index f065419..7570d1e 100644
--- a/tools/src/hfst-substitute.cc
+++ b/tools/src/hfst-substitute.cc
@@ -663,6 +663,7 @@ process_stream(HfstInputStream &instream)
             size_t line_n = 0;
             verbose_printf("reading substitutions from %s...\n",
                            from_file_name);
+            rewind(from_file);
             while (hfst_getline(&line, &len, from_file) != -1)
             {
                 line_n++;
@@ -774,14 +775,12 @@ process_stream(HfstInputStream &instream)
             if (!in_order && symbol_map_in_use)
             {
                 trans.substitute(*label_substitution_map);
-                symbol_map_in_use = false;
             }
 
             // perform symbol pair-to-symbol pair substitution right away
             if (!in_order && symbol_pair_map_in_use)
             {
                 trans.substitute(*pair_substitution_map);
-                symbol_pair_map_in_use = false;
             }
         }
 
-- 
2.43.0


From 6139381691ec2021fa278bd402e901ea1a3cfcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 31/84] fix: hfst-reweight -T kept the addition or multiplier
 of earlier lines

---
 tools/src/hfst-reweight.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/src/hfst-reweight.cc b/tools/src/hfst-reweight.cc
index 40c562e..01d1cf5 100644
--- a/tools/src/hfst-reweight.cc
+++ b/tools/src/hfst-reweight.cc
@@ -477,10 +477,12 @@ process_stream(HfstInputStream &instream, HfstOutputStream &outstream)
                 if (*weightspec == '+')
                 {
                     addition = hfst_strtoweight(weightspec + 1);
+                    multiplier = 1;
                 }
                 else
                 {
                     multiplier = hfst_strtoweight(weightspec);
+                    addition = 0;
                 }
                 free(weightspec);
                 verbose_printf("Modifying weights %f < w < %f as %f * %s(w) + "
-- 
2.43.0


From 0098969d0b1f273d9fe1d6fee8c8e70430345474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:06 +0000
Subject: [PATCH 32/84] fix: hfst-compose composed the results when one
 transducer met several

---
 tools/src/hfst-compose.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/tools/src/hfst-compose.cc b/tools/src/hfst-compose.cc
index f929085..7bdf2e1 100644
--- a/tools/src/hfst-compose.cc
+++ b/tools/src/hfst-compose.cc
@@ -265,7 +265,11 @@ compose_streams(HfstInputStream &firststream, HfstInputStream &secondstream)
                            firstname, secondname, transducer_n_first);
         }
 
-        if (first->has_flag_diacritics() or second->has_flag_diacritics())
+        // the first transducer is needed again if it is the only one in its
+        // stream, so compose a copy of it
+        HfstTransducer result(*first);
+
+        if (result.has_flag_diacritics() or second->has_flag_diacritics())
         {
             if (not harmonize_flags)
             {
@@ -281,14 +285,14 @@ compose_streams(HfstInputStream &firststream, HfstInputStream &secondstream)
             {
                 try
                 {
-                    first->harmonize_flag_diacritics(*second);
+                    result.harmonize_flag_diacritics(*second);
                 }
                 catch (TransducerTypeMismatchException ttme)
                 {
                     if (allow_transducer_conversion)
                     {
-                        convert_transducers(*first, *second);
-                        first->harmonize_flag_diacritics(*second);
+                        convert_transducers(result, *second);
+                        result.harmonize_flag_diacritics(*second);
                     }
                     else
                     {
@@ -308,14 +312,14 @@ compose_streams(HfstInputStream &firststream, HfstInputStream &secondstream)
 
         try
         {
-            first->compose(*second, harmonize);
+            result.compose(*second, harmonize);
         }
         catch (TransducerTypeMismatchException ttme)
         {
             if (allow_transducer_conversion)
             {
-                convert_transducers(*first, *second);
-                first->compose(*second, harmonize);
+                convert_transducers(result, *second);
+                result.compose(*second, harmonize);
             }
             else
             {
@@ -330,10 +334,10 @@ compose_streams(HfstInputStream &firststream, HfstInputStream &secondstream)
             }
         }
 
-        hfst_set_name(*first, *first, *second, "compose");
-        hfst_set_formula(*first, *first, *second, "∘");
+        hfst_set_name(result, *first, *second, "compose");
+        hfst_set_formula(result, *first, *second, "∘");
 
-        outstream << *first;
+        outstream << result;
 
         continueReading
             = (firststream.is_good() && secondstream.is_good())
-- 
2.43.0


From b642c6d5e3ff0a17129aa5a157ee6d801ae934b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:06 +0000
Subject: [PATCH 33/84] fix: hfst-priority-disjunct aborted on transducers of
 different types

---
 libhfst/src/HfstTransducer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index c329d2b..865b14c 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4816,7 +4816,7 @@ HfstTransducer::priority_union(const HfstTransducer &another)
 #endif
     if (this->type != another.type)
     {
-        HFST_THROW_MESSAGE(HfstTransducerTypeMismatchException,
+        HFST_THROW_MESSAGE(TransducerTypeMismatchException,
                            "HfstTransducer::priority_union");
     }
     HfstTransducer t1(*this);
-- 
2.43.0


From aac60237749a92b11c39d23d91911b2f96a5ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:06 +0000
Subject: [PATCH 34/84] fix: hfst-txt2fst --prolog refused the separator
 hfst-fst2txt -f prolog writes

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 428312b..0903dc4 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1461,7 +1461,8 @@ HfstBasicTransducer::read_in_prolog_format(std::istream &is, FILE *file,
         try
         {
             linestr = get_stripped_line(is, file, linecount);
-            if (linestr.empty()) // prolog separator
+            // prolog separator, or the one that hfst-fst2txt writes
+            if (linestr.empty() || linestr == "--")
             {
                 return retval;
             }
-- 
2.43.0


From 0d5e81fa601a09ccf27913bb006ba9c938dd148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 35/84] fix: hfst-txt2fst wrote transducers without end when
 reading its input failed

---
 tools/src/hfst-txt2fst.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tools/src/hfst-txt2fst.cc b/tools/src/hfst-txt2fst.cc
index accc60f..e6af29b 100644
--- a/tools/src/hfst-txt2fst.cc
+++ b/tools/src/hfst-txt2fst.cc
@@ -222,6 +222,18 @@ parse_options(int argc, char **argv)
     return EXIT_CONTINUE;
 }
 
+// A transducer that could not be read to its end is not a transducer of the
+// input.
+static void
+check_read_error()
+{
+    if (ferror(inputfile))
+    {
+        hfst_error(EXIT_FAILURE, errno, "Error when reading %s",
+                   inputfilename);
+    }
+}
+
 int
 process_stream(HfstOutputStream &outstream)
 {
@@ -274,6 +286,7 @@ process_stream(HfstOutputStream &outstream)
                 HfstBasicTransducer fsm
                     = HfstBasicTransducer::read_in_prolog_format(inputfile,
                                                                  linecount);
+                check_read_error();
 
                 if (check_negative_epsilon_cycles)
                 {
@@ -322,6 +335,7 @@ process_stream(HfstOutputStream &outstream)
                     HfstTransducer t(inputfile, output_format,
                                      std::string(epsilonname),
                                      warn_negative_weights);
+                    check_read_error();
                     transducers.push_back(t);
                 }
             }
@@ -346,6 +360,7 @@ process_stream(HfstOutputStream &outstream)
                 HfstTransducer t(inputfile, output_format,
                                  std::string(epsilonname), linecount,
                                  warn_negative_weights);
+                check_read_error();
                 hfst_set_name(t, inputfilename, "text");
                 hfst_set_formula(t, inputfilename, "T");
                 if (check_negative_epsilon_cycles)
-- 
2.43.0


From a43e268f3f00be71e377e034939be2f68f6e3eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:00 +0000
Subject: [PATCH 36/84] fix: write prolog in an xfst session ended the session
 when a network had a comma in its name

---
 libhfst/src/parsers/XfstCompiler.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 71c9b25..5a97558 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -3873,6 +3873,7 @@ XfstCompiler::write_prolog(std::ostream *oss_)
         xfst_lesser_fail();
         PROMPT_AND_RETURN_THIS;
     }
+    bool failed = false;
     std::stack<hfst::HfstTransducer *> reverse_stack;
     while (stack_.size() != 0)
     {
@@ -3881,8 +3882,18 @@ XfstCompiler::write_prolog(std::ostream *oss_)
         if (name.empty())
             name = "NO_NAME";
         HfstBasicTransducer fsm(*tr);
-        fsm.write_in_prolog_format(*oss, name,
-                                   variables_["print-weight"] == "ON");
+        try
+        {
+            fsm.write_in_prolog_format(*oss, name,
+                                       variables_["print-weight"] == "ON");
+        }
+        catch (const HfstException &e)
+        {
+            error() << "Could not write network '" << name
+                    << "' in prolog format: " << e.what() << std::endl;
+            flush(&error());
+            failed = true;
+        }
         if (stack_.size() != 1) // separator
             *oss << std::endl;
         reverse_stack.push(tr);
@@ -3895,6 +3906,10 @@ XfstCompiler::write_prolog(std::ostream *oss_)
         reverse_stack.pop();
     }
     flush(oss);
+    if (failed)
+    {
+        xfst_fail();
+    }
     PROMPT_AND_RETURN_THIS;
 }
 XfstCompiler &
-- 
2.43.0


From ccb245025949653240cdb5eeac78317484ae8acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:00 +0000
Subject: [PATCH 37/84] fix: AT&T and prolog readers overran fixed buffers on
 long symbols and lines

---
 .../implementations/HfstBasicTransducer.cc    | 168 ++++++++++--------
 1 file changed, 95 insertions(+), 73 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 0903dc4..119012b 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1097,12 +1097,12 @@ HfstBasicTransducer::parse_prolog_network_line(const std::string &line,
                                                HfstBasicTransducer &graph)
 {
     // 'network(NAME).'
-    char namearr[100];
-    int n = sscanf(line.c_str(), "network(%s", namearr);
+    std::vector<char> namearr(line.size() + 1);
+    int n = sscanf(line.c_str(), "network(%[^\n]", namearr.data());
     if (n != 1)
         return false;
 
-    std::string namestr(namearr);
+    std::string namestr(namearr.data());
     // strip the ending ")." from namestr
     if (!strip_ending_parenthesis_and_comma(namestr))
         return false;
@@ -1122,11 +1122,11 @@ HfstBasicTransducer::get_positions_of_unescaped_char(const std::string &str,
     {
         if (str[i] == c)
         {
-            if (i == 0)
-                retval.push_back(i);
-            else if (str[i - 1] == esc)
-                ; // skip escaped chars
-            else
+            // an escaping character can be escaped itself
+            unsigned int n = 0;
+            while (n < i && str[i - 1 - n] == esc)
+                n++;
+            if (n % 2 == 0)
                 retval.push_back(i);
         }
     }
@@ -1197,6 +1197,9 @@ HfstBasicTransducer::get_prolog_arc_symbols(const std::string &str,
         osymbol = deprologize_symbol(outsymbol);
     }
 
+    if (isymbol.empty() || osymbol.empty())
+        return false; // there is no empty symbol
+
     return true;
 }
 
@@ -1243,15 +1246,16 @@ HfstBasicTransducer::parse_prolog_arc_line(const std::string &line,
                                            HfstBasicTransducer &graph)
 {
     // symbolstr can also contain the weight
-    char namestr[100];
-    char sourcestr[100];
-    char targetstr[100];
-    char symbolstr[100];
+    std::vector<char> namestr(line.size() + 1);
+    std::vector<char> sourcestr(line.size() + 1);
+    std::vector<char> targetstr(line.size() + 1);
+    std::vector<char> symbolstr(line.size() + 1);
 
-    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\t\n]", namestr,
-                   sourcestr, targetstr, symbolstr);
+    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\n]",
+                   namestr.data(), sourcestr.data(), targetstr.data(),
+                   symbolstr.data());
 
-    std::string symbol(symbolstr);
+    std::string symbol(symbolstr.data());
 
     // strip the ending ")." from symbolstr
     if (!strip_ending_parenthesis_and_comma(symbol))
@@ -1263,13 +1267,13 @@ HfstBasicTransducer::parse_prolog_arc_line(const std::string &line,
     {
         return false;
     }
-    if (std::string(namestr) != graph.name)
+    if (std::string(namestr.data()) != graph.name)
     {
         return false;
     }
 
-    unsigned int source = atoi(sourcestr);
-    unsigned int target = atoi(targetstr);
+    unsigned int source = atoi(sourcestr.data());
+    unsigned int target = atoi(targetstr.data());
 
     // handle the weight that might be included in symbol string
     float weight = 0;
@@ -1294,9 +1298,9 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
                                              HfstBasicTransducer &graph)
 {
     // 'final(NAME, number).' or 'final(NAME, number, weight).'
-    char namestr[100];
-    char finalstr[100];
-    char weightstr[100];
+    std::vector<char> namestr(line.size() + 1);
+    std::vector<char> finalstr(line.size() + 1);
+    std::vector<char> weightstr(line.size() + 1);
     float weight = 0;
 
     unsigned int number_of_commas = 0;
@@ -1310,7 +1314,8 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
     if (number_of_commas == 1)
     {
         int n
-            = sscanf(line.c_str(), "final(%[^,], %[^)]).", namestr, finalstr);
+            = sscanf(line.c_str(), "final(%[^,], %[^)]).", namestr.data(),
+                     finalstr.data());
         if (n != 2)
         {
             return false;
@@ -1318,13 +1323,13 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
     }
     else if (number_of_commas == 2)
     {
-        int n = sscanf(line.c_str(), "final(%[^,], %[^,], %[^)]).", namestr,
-                       finalstr, weightstr);
+        int n = sscanf(line.c_str(), "final(%[^,], %[^,], %[^)]).",
+                       namestr.data(), finalstr.data(), weightstr.data());
         if (n != 3)
         {
             return false;
         }
-        std::istringstream buffer(weightstr);
+        std::istringstream buffer(weightstr.data());
         buffer >> weight;
         if (buffer.fail()) // a float could not be read
         {
@@ -1336,10 +1341,10 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
         return false;
     }
 
-    if (std::string(namestr) != graph.name)
+    if (std::string(namestr.data()) != graph.name)
         return false;
 
-    graph.set_final_weight(atoi(finalstr), weight);
+    graph.set_final_weight(atoi(finalstr.data()), weight);
     return true;
 }
 
@@ -1348,15 +1353,16 @@ HfstBasicTransducer::parse_prolog_symbol_line(const std::string &line,
                                               HfstBasicTransducer &graph)
 {
     // 'symbol(NAME, "foo").'
-    char namearr[100];
-    char symbolarr[100];
-    int n = sscanf(line.c_str(), "symbol(%[^,], %s", namearr, symbolarr);
+    std::vector<char> namearr(line.size() + 1);
+    std::vector<char> symbolarr(line.size() + 1);
+    int n = sscanf(line.c_str(), "symbol(%[^,], %[^\n]", namearr.data(),
+                   symbolarr.data());
 
     if (n != 2)
         return false;
 
-    std::string namestr(namearr);
-    std::string symbolstr(symbolarr);
+    std::string namestr(namearr.data());
+    std::string symbolstr(symbolarr.data());
 
     if (namestr != graph.name)
         return false;
@@ -1385,6 +1391,27 @@ HfstBasicTransducer::strip_newlines(std::string &str)
     return str;
 }
 
+// Get a line of any length from \a is (if \a file == NULL) or from \a file.
+// Return false if there is none.
+static bool
+get_text_line(std::istream &is, FILE *file, std::string &line)
+{
+    line.clear();
+    if (file == NULL)
+    { /* we use streams */
+        return (bool)std::getline(is, line);
+    }
+    /* we use FILEs */
+    char part[255];
+    while (fgets(part, sizeof(part), file) != NULL)
+    {
+        line.append(part);
+        if (!line.empty() && line[line.size() - 1] == '\n')
+            break;
+    }
+    return !line.empty();
+}
+
 // Try to get a line from \a is (if \a file == NULL)
 // or from \a file. If successfull, strip the line from newlines,
 // increment \a linecount by one and return the line.
@@ -1393,21 +1420,11 @@ std::string
 HfstBasicTransducer::get_stripped_line(std::istream &is, FILE *file,
                                        unsigned int &linecount)
 {
-    char line[255];
-
-    if (file == NULL)
-    { /* we use streams */
-        if (!is.getline(line, 255).eof())
-            HFST_THROW(EndOfStreamException);
-    }
-    else
-    { /* we use FILEs */
-        if (NULL == fgets(line, 255, file))
-            HFST_THROW(EndOfStreamException);
-    }
+    std::string linestr;
+    if (!get_text_line(is, file, linestr))
+        HFST_THROW(EndOfStreamException);
     linecount++;
 
-    std::string linestr(line);
     return strip_newlines(linestr);
 }
 
@@ -1724,23 +1741,43 @@ HfstBasicTransducer::add_att_line(char *line,
                                   bool warn_negs)
 {
     // scan one line that can have a maximum of five fields
-    char a1[100];
-    char a2[100];
-    char a3[100];
-    char a4[100];
-    char a5[100];
+    std::vector<std::string> fields;
+    const char *whitespace = " \t\n\v\f\r";
+    while (fields.size() < 5)
+    {
+        line += strspn(line, whitespace);
+        size_t length = strcspn(line, whitespace);
+        if (length == 0)
+            break;
+        fields.push_back(std::string(line, length));
+        line += length;
+    }
     // how many fields could be parsed
-    int n = sscanf(line, "%s%s%s%s%s", a1, a2, a3, a4, a5);
+    size_t n = fields.size();
+    fields.resize(5);
+    const char *a1 = fields[0].c_str();
+    const char *a2 = fields[1].c_str();
+    const char *a3 = fields[2].c_str();
+    const char *a4 = fields[3].c_str();
+    const char *a5 = fields[4].c_str();
 
     // set value of weight
     float weight = 0;
-    if (n == 2) // a final state line with weight
+    try
     {
-        weight = hfst::double_to_float(atof(a2));
+        if (n == 2) // a final state line with weight
+        {
+            weight = hfst::double_to_float(atof(a2));
+        }
+        if (n == 5) // a transition line with weight
+        {
+            weight = hfst::double_to_float(atof(a5));
+        }
     }
-    if (n == 5) // a transition line with weight
+    catch (const std::overflow_error &e)
     {
-        weight = hfst::double_to_float(atof(a5));
+        (void)e;
+        return false; // not a weight
     }
     if ((weight < 0) && warn_negs)
     {
@@ -1817,25 +1854,10 @@ HfstBasicTransducer::read_in_att_format(std::istream &is, FILE *file,
     }
 
     HfstBasicTransducer retval;
-    char line[255];
-    while (true)
+    std::string linestr;
+    while (get_text_line(is, file, linestr))
     {
-
-        if (file == NULL)
-        { /* we use streams */
-            if (!is.getline(line, 255).eof())
-            {
-                break;
-            }
-        }
-        else
-        { /* we use FILEs */
-            if (NULL == fgets(line, 255, file))
-            {
-                break;
-            }
-        }
-
+        char *line = &linestr[0];
         linecount++;
 
         // an empty line signifying an empty transducer,
-- 
2.43.0


From b51226a4210c78935675ad31fe1b48fc5cef5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:27 +0000
Subject: [PATCH 38/84] fix: hfst-xfst: a damaged file given to load stack or
 load defined no longer ends the session or is half loaded

---
 libhfst/src/parsers/XfstCompiler.cc | 46 +++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 5a97558..a40ab63 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -2020,7 +2020,7 @@ XfstCompiler::open_hfst_input_stream(const char *infilename)
         instream = (infilename != 0) ? new HfstInputStream(infilename)
                                      : new HfstInputStream();
     }
-    catch (NotTransducerStreamException ntse)
+    catch (const HfstException &)
     {
         error() << "Unable to read transducers from "
                 << to_filename(infilename) << std::endl;
@@ -2041,32 +2041,52 @@ XfstCompiler::load_stack_or_definitions(const char *infilename,
         infilename) };
     IF_NULL_PROMPT_AND_RETURN_THIS(instream);
 
-    // Read transducers from stream
-    while (instream->is_good())
+    // Read all transducers from stream before changing anything: a file that
+    // cannot be read to its end must leave the session as it was.
+    std::vector<std::unique_ptr<HfstTransducer>> loaded;
+    try
     {
-        HfstTransducer *t = new HfstTransducer(*instream);
+        while (instream->is_good())
+        {
+            loaded.emplace_back(new HfstTransducer(*instream));
+            HfstTransducer *t = loaded.back().get();
 
-        // Convert transducer format, if needed
-        convert_to_common_format(t, infilename);
+            // Convert transducer format, if needed
+            convert_to_common_format(t, infilename);
 
-        // Add transducer as definition..
-        if (load_definitions)
-        {
-            if (t->get_type() == hfst::HFST_OL_TYPE
-                || t->get_type() == hfst::HFST_OLW_TYPE)
+            if (load_definitions
+                && (t->get_type() == hfst::HFST_OL_TYPE
+                    || t->get_type() == hfst::HFST_OLW_TYPE))
             {
                 error() << "cannot load optimized lookup transducers as "
                            "definitions"
                         << std::endl;
                 flush(&error());
+                loaded.pop_back();
                 break;
             }
-            add_loaded_definition(t);
+        }
+    }
+    catch (const HfstException &e)
+    {
+        error() << "Error reading transducers from "
+                << to_filename(infilename) << ": " << e.name << std::endl;
+        flush(&error());
+        xfst_fail();
+        PROMPT_AND_RETURN_THIS;
+    }
+
+    for (auto &t : loaded)
+    {
+        // Add transducer as definition..
+        if (load_definitions)
+        {
+            add_loaded_definition(t.release());
         }
         // ..or push it to stack.
         else
         {
-            stack_.push(t);
+            stack_.push(t.release());
             print_transducer_info();
         }
     }
-- 
2.43.0


From 3b788f422eab9b68c774387f5fd090b2370cd24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:27 +0000
Subject: [PATCH 39/84] fix: hfst-xfst: rotate stack moves the top network to
 the bottom instead of reversing the stack

---
 libhfst/src/parsers/XfstCompiler.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index a40ab63..5ee9f7b 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -1890,13 +1890,21 @@ XfstCompiler::rotate()
         PROMPT_AND_RETURN_THIS;
     }
 
+    // move the top network to the bottom (turn() reverses the whole stack)
     stack<HfstTransducer *> tmp;
+    HfstTransducer *top = stack_.top();
+    stack_.pop();
     while (!stack_.empty())
     {
         tmp.push(stack_.top());
         stack_.pop();
     }
-    stack_ = tmp;
+    stack_.push(top);
+    while (!tmp.empty())
+    {
+        stack_.push(tmp.top());
+        tmp.pop();
+    }
 
     PRINT_INFO_PROMPT_AND_RETURN_THIS;
 }
-- 
2.43.0


From 762b797ff45608635a5b1a62d0242fba108dd4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 40/84] fix: hfst-xfst: definitions loaded from a file are
 visible to regular expressions

---
 libhfst/src/parsers/XfstCompiler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 5ee9f7b..0a3467e 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -1943,6 +1943,7 @@ XfstCompiler::add_loaded_definition(HfstTransducer *t)
         delete it->second;
         definitions_.erase(def_name);
     }
+    xre_.define(def_name, *t); // XRE
     definitions_[def_name] = t;
     return *this;
 }
-- 
2.43.0


From 2cbc8865688656a797c98e363710726d403f20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:03 +0000
Subject: [PATCH 41/84] fix: hfst-xfst: a command given a file that cannot be
 opened no longer crashes

---
 libhfst/src/parsers/xfst-parser.yy | 49 +++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/libhfst/src/parsers/xfst-parser.yy b/libhfst/src/parsers/xfst-parser.yy
index 51ab875..8d8446d 100644
--- a/libhfst/src/parsers/xfst-parser.yy
+++ b/libhfst/src/parsers/xfst-parser.yy
@@ -108,8 +108,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->add_props(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->add_props(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
@@ -136,8 +139,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->apply_up(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->apply_up(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
@@ -159,8 +165,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->apply_down(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->apply_down(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
@@ -176,8 +185,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->apply_med(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->apply_med(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
@@ -1177,8 +1189,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->read_props(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->read_props(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
@@ -1189,8 +1204,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->read_prolog(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->read_prolog(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    free($2); CHECK;
        }
@@ -1205,8 +1223,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->read_regex(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->read_regex(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
-- 
2.43.0


From 4cb86ad162eb48ce6818d6b6449488d6062fc945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 42/84] fix: hfst-xfst: a file that cannot be read completely
 is not taken for a complete one; no double close after a bad att file

---
 libhfst/src/parsers/XfstCompiler.cc | 40 +++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 0a3467e..f400747 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4123,7 +4123,14 @@ XfstCompiler::read_regex(FILE *infile)
     char *file_data
         = static_cast<char *>(malloc(sizeof(char) * MAX_FILE_SIZE + 1));
     read = fread(file_data, sizeof(char), MAX_FILE_SIZE, infile);
-    if ((read > 0) && (read < MAX_FILE_SIZE) && (feof(infile)))
+    file_data[read] = '\0';
+    if (ferror(infile))
+    {
+        error() << "Error when reading regex file." << std::endl;
+        flush(&error());
+        xfst_fail();
+    }
+    else if ((read > 0) && (read < MAX_FILE_SIZE) && (feof(infile)))
     {
         compiled = xre_.compile(file_data); // XRE
         if (compiled != NULL)
@@ -4142,6 +4149,7 @@ XfstCompiler::read_regex(FILE *infile)
         error() << "regex file longer than buffer :-(" << std::endl;
         flush(&error());
     }
+    free(file_data);
     if (compiled != NULL)
     {
         print_transducer_info();
@@ -4190,14 +4198,22 @@ XfstCompiler::read_prolog(FILE *infile)
         unsigned int linecount = 0;
         HfstBasicTransducer tr
             = HfstBasicTransducer::read_in_prolog_format(infile, linecount);
+        if (ferror(infile))
+        {
+            error() << "error when reading prolog file" << std::endl;
+            flush(&error());
+            xfst_fail();
+            PROMPT_AND_RETURN_THIS;
+        }
         stack_.push(new HfstTransducer(tr, format_));
         MAYBE_MINIMIZE(stack_.top());
         PRINT_INFO_PROMPT_AND_RETURN_THIS;
     }
-    catch (const NotValidPrologFormatException &e)
+    catch (const HfstException &e)
     {
         error() << e() << std::endl;
         flush(&error());
+        xfst_fail();
         PROMPT_AND_RETURN_THIS;
     }
 }
@@ -4250,12 +4266,21 @@ XfstCompiler::read_text_or_spaced(const char *filename, bool spaces)
         free(line);
     }
 
+    bool failed = (ferror(infile) != 0);
     if (0 != fclose(infile))
     {
         error() << "Could not close file " << filename << std::endl;
         flush(&error());
         xfst_fail();
     }
+    if (failed)
+    {
+        error() << "Could not read file " << filename << std::endl;
+        flush(&error());
+        xfst_fail();
+        delete tmp;
+        PROMPT_AND_RETURN_THIS;
+    }
 
     tmp->minimize(); // a trie should be easily minimizable
     stack_.push(tmp);
@@ -5488,6 +5513,11 @@ XfstCompiler::read_att_from_file(const char *filename)
         else
             tmp = new HfstTransducer(infile, format_,
                                      variables_["att-epsilon"], false); // XXX
+        if (ferror(infile))
+        {
+            delete tmp;
+            HFST_THROW(NotValidAttFormatException);
+        }
         MAYBE_MINIMIZE(tmp);
         stack_.push(tmp);
         print_transducer_info();
@@ -5495,12 +5525,6 @@ XfstCompiler::read_att_from_file(const char *filename)
     catch (const HfstException &e)
     {
         (void)e;
-        if (0 != fclose(infile))
-        {
-            error() << "Could not close file " << filename << std::endl;
-            flush(&error());
-        }
-
         error() << "error reading in att format" << std::endl;
         flush(&error());
         xfst_fail();
-- 
2.43.0


From 3f4075f5e4acce352b3b253682f66c6bf9ed9284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:43 +0000
Subject: [PATCH 43/84] fix: hfst-xfst: an operation or definition that fails
 leaves the stack and the definitions as they were

---
 libhfst/src/parsers/XfstCompiler.cc | 223 ++++++++++++++++------------
 1 file changed, 128 insertions(+), 95 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index f400747..d275093 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -1444,6 +1444,7 @@ XfstCompiler::define(const char *name, const char *xre)
                     << "'" << std::endl;
             flush(&error());
             xfst_fail();
+            PROMPT_AND_RETURN_THIS;
         }
         this->define(name, compiled);
         original_definitions_[name] = xre;
@@ -4427,47 +4428,58 @@ XfstCompiler::apply_binary_operation(BinaryOperation operation)
         xfst_lesser_fail();
         return *this;
     }
-    HfstTransducer *result = stack_.top();
+    // Operate on a copy so that an operation that fails leaves the stack as
+    // it was.
+    HfstTransducer *top = stack_.top();
     stack_.pop();
     HfstTransducer *another = stack_.top();
-    stack_.pop();
+    stack_.push(top);
+    std::unique_ptr<HfstTransducer> result{ new HfstTransducer(*top) };
 
-    switch (operation)
+    try
     {
-    case IGNORE_NET:
-        result->insert_freely(*another);
-        break;
-    case MINUS_NET:
-        result->subtract(*another);
-        break;
-    case (CROSSPRODUCT_NET):
-        try
+        switch (operation)
         {
+        case IGNORE_NET:
+            result->insert_freely(*another);
+            break;
+        case MINUS_NET:
+            result->subtract(*another);
+            break;
+        case (CROSSPRODUCT_NET):
             result->cross_product(*another);
             break;
-        }
-        catch (const TransducersAreNotAutomataException &e)
-        {
-            (void)e;
-            error() << "transducers are not automata" << std::endl;
+        default:
+            error() << "ERROR: unknown binary operation" << std::endl;
             flush(&error());
             xfst_fail();
-            stack_.push(another);
-            stack_.push(result);
-            prompt();
-            return *this;
             break;
         }
-    default:
-        error() << "ERROR: unknown binary operation" << std::endl;
+        MAYBE_MINIMIZE(result);
+    }
+    catch (const TransducersAreNotAutomataException &e)
+    {
+        (void)e;
+        error() << "transducers are not automata" << std::endl;
         flush(&error());
         xfst_fail();
-        break;
+        prompt();
+        return *this;
+    }
+    catch (const HfstException &e)
+    {
+        error() << "operation failed: " << e.name << std::endl;
+        flush(&error());
+        xfst_fail();
+        prompt();
+        return *this;
     }
 
-    MAYBE_MINIMIZE(result);
+    stack_.pop();
+    stack_.pop();
+    delete top;
     delete another;
-    stack_.push(result);
+    stack_.push(result.release());
     PRINT_INFO_PROMPT_AND_RETURN_THIS;
 }
 
@@ -4483,94 +4495,115 @@ XfstCompiler::apply_binary_operation_iteratively(BinaryOperation operation)
         xfst_lesser_fail();
         return *this;
     }
-    HfstTransducer *result = stack_.top();
-
-    stack_.pop();
-    while (!stack_.empty())
+    // Operate on a copy so that an operation that fails leaves the stack as
+    // it was.
+    std::vector<HfstTransducer *> networks; // from top to bottom
+    for (stack<HfstTransducer *> tmp = stack_; !tmp.empty(); tmp.pop())
     {
-        HfstTransducer *t = stack_.top();
+        networks.push_back(tmp.top());
+    }
+    std::unique_ptr<HfstTransducer> result{ new HfstTransducer(
+        *networks.front()) };
 
-        if (t->get_type() != result->get_type())
+    try
+    {
+        for (size_t i = 1; i < networks.size(); i++)
         {
-            error() << "Stack contains transducers whose type differs."
-                    << std::endl;
-            flush(&error());
-            xfst_lesser_fail();
-            break;
-        }
+            HfstTransducer *t = networks[i];
 
-        switch (operation)
-        {
-        case INTERSECT_NET:
-            result->intersect(*t);
-            break;
-        case IGNORE_NET:
-            result->insert_freely(*t);
-            break;
-        case COMPOSE_NET:
-        {
-            if (result->has_flag_diacritics() && t->has_flag_diacritics())
+            if (t->get_type() != result->get_type())
             {
-                if (variables_["harmonize-flags"] == "OFF")
+                error() << "Stack contains transducers whose type differs."
+                        << std::endl;
+                flush(&error());
+                xfst_lesser_fail();
+                prompt();
+                return *this;
+            }
+
+            switch (operation)
+            {
+            case INTERSECT_NET:
+                result->intersect(*t);
+                break;
+            case IGNORE_NET:
+                result->insert_freely(*t);
+                break;
+            case COMPOSE_NET:
+                if (result->has_flag_diacritics() && t->has_flag_diacritics())
                 {
-                    if (verbose_)
+                    if (variables_["harmonize-flags"] == "OFF")
                     {
-                        error() << "Both composition arguments contain flag "
+                        if (verbose_)
+                        {
+                            error()
+                                << "Both composition arguments contain flag "
                                    "diacritics. Set harmonize-flags ON to "
                                    "harmonize them."
                                 << std::endl;
-                        flush(&error());
+                            flush(&error());
+                        }
+                    }
+                    else
+                    {
+                        // changes its argument
+                        HfstTransducer copy(*t);
+                        result->harmonize_flag_diacritics(copy);
+                        result->compose(copy);
+                        break;
                     }
                 }
-                else
-                {
-                    result->harmonize_flag_diacritics(*t);
-                }
-            }
-
-            try
-            {
                 result->compose(*t);
-            }
-            catch (const FlagDiacriticsAreNotIdentitiesException &e)
-            {
-                (void)e;
-                error() << "Error: flag diacritics must be identities in "
-                           "composition if flag-is-epsilon is ON."
-                        << std::endl
-                        << "I.e. only FLAG:FLAG is allowed, not FLAG1:FLAG2, "
-                           "FLAG:bar or foo:FLAG"
-                        << std::endl
-                        << "Apply twosided flag-diacritics (tfd) before "
-                           "composition."
-                        << std::endl;
+                break;
+            case CONCATENATE_NET:
+                result->concatenate(*t);
+                break;
+            case UNION_NET:
+                result->disjunct(*t);
+                break;
+            case SHUFFLE_NET:
+                result->shuffle(*t);
+                break;
+            default:
+                error() << "ERROR: unknown binary operation" << std::endl;
                 flush(&error());
-                xfst_lesser_fail();
-                prompt();
-                return *this;
+                break;
             }
-
-            break;
-        }
-        case CONCATENATE_NET:
-            result->concatenate(*t);
-            break;
-        case UNION_NET:
-            result->disjunct(*t);
-            break;
-        case SHUFFLE_NET:
-            result->shuffle(*t);
-            break;
-        default:
-            error() << "ERROR: unknown binary operation" << std::endl;
-            flush(&error());
-            break;
         }
+        MAYBE_MINIMIZE(result);
+    }
+    catch (const FlagDiacriticsAreNotIdentitiesException &e)
+    {
+        (void)e;
+        error() << "Error: flag diacritics must be identities in "
+                   "composition if flag-is-epsilon is ON."
+                << std::endl
+                << "I.e. only FLAG:FLAG is allowed, not FLAG1:FLAG2, "
+                   "FLAG:bar or foo:FLAG"
+                << std::endl
+                << "Apply twosided flag-diacritics (tfd) before "
+                   "composition."
+                << std::endl;
+        flush(&error());
+        xfst_lesser_fail();
+        prompt();
+        return *this;
+    }
+    catch (const HfstException &e)
+    {
+        error() << "operation failed: " << e.name << std::endl;
+        flush(&error());
+        xfst_fail();
+        prompt();
+        return *this;
+    }
+
+    for (HfstTransducer *network : networks)
+    {
         stack_.pop();
-        delete t;
+        delete network;
     }
-    MAYBE_MINIMIZE(result);
-    stack_.push(result);
+    stack_.push(result.release());
     PRINT_INFO_PROMPT_AND_RETURN_THIS;
 }
 
-- 
2.43.0


From 0a7175df1767cf2bcad35bc49558315ef71dd38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:07 +0000
Subject: [PATCH 44/84] fix: hfst-xfst: a long line does not end a session read
 from standard input, a failing read does

---
 tools/src/parsers/hfst-xfst.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tools/src/parsers/hfst-xfst.cc b/tools/src/parsers/hfst-xfst.cc
index dca56d2..9e4b096 100644
--- a/tools/src/parsers/hfst-xfst.cc
+++ b/tools/src/parsers/hfst-xfst.cc
@@ -548,9 +548,9 @@ main(int argc, char **argv)
 
             std::string expression = "";
             // unsigned int lines = 0;
-            const unsigned int MAX_LINE_LENGTH = 1024;
 
 #ifdef WINDOWS
+            const unsigned int MAX_LINE_LENGTH = 1024;
             /*SetConsoleCP(65001);
             const HANDLE stdIn = GetStdHandle(STD_INPUT_HANDLE);
             WCHAR buffer[0x1000];
@@ -567,12 +567,10 @@ main(int argc, char **argv)
                 expression += str;
                 str = std::string("");
 #else
-            char line[MAX_LINE_LENGTH];
-            insert_zeroes(line, MAX_LINE_LENGTH);
-            while (std::cin.getline(line, MAX_LINE_LENGTH))
+            std::string line;
+            while (std::getline(std::cin, line))
             {
-                std::string linestr(line);
-                expression += linestr;
+                expression += line.c_str();
 #endif
                 if (expression_continues(expression))
                 {
@@ -607,6 +605,13 @@ main(int argc, char **argv)
 
                 expression = "";
             }
+#ifndef WINDOWS
+            if (std::cin.bad() || ferror(stdin))
+            {
+                hfst_error(EXIT_FAILURE, 0, "error when reading <stdin>\n");
+                return EXIT_FAILURE;
+            }
+#endif
         }
         else
         {
-- 
2.43.0


From 87de4f0a98e0a1f8ac221e60475f8368a2bca8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:08 +0000
Subject: [PATCH 45/84] fix: hfst-xfst: source works in the middle of a session
 and of another file, and does not execute a part of a file it cannot read

---
 libhfst/src/parsers/XfstCompiler.cc |  5 +++
 libhfst/src/parsers/xfst-lexer.ll   | 57 +++++++++++++++++++++++------
 2 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index d275093..8d1aaec 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -69,6 +69,7 @@ struct yy_buffer_state;
 typedef yy_buffer_state *YY_BUFFER_STATE;
 extern YY_BUFFER_STATE hxfst_scan_string(const char *);
 extern void hxfst_delete_buffer(YY_BUFFER_STATE);
+extern void hxfst_reset_sources();
 
 #include "implementations/HfstBasicTransducer.h"
 
@@ -5591,6 +5592,7 @@ XfstCompiler::parse(FILE *infile)
     hxfstin = infile;
     xfst_ = this;
     int rv = hxfstparse();
+    hxfst_reset_sources();
     return rv;
 }
 int
@@ -5611,6 +5613,7 @@ XfstCompiler::parse(const char *filename)
     }
     xfst_ = this;
     int rv = hxfstparse();
+    hxfst_reset_sources();
     fclose(hxfstin);
     return rv;
 }
@@ -5621,6 +5624,7 @@ XfstCompiler::parse_line(char line[])
     xfst_ = this;
     YY_BUFFER_STATE bs = hxfst_scan_string(line);
     int rv = hxfstparse();
+    hxfst_reset_sources();
     hxfst_delete_buffer(bs);
     /*if (rv != 0)
       {
@@ -5636,6 +5640,7 @@ XfstCompiler::parse_line(std::string line)
     char *line_ = strdup(line.c_str());
     YY_BUFFER_STATE bs = hxfst_scan_string(line_);
     int rv = hxfstparse();
+    hxfst_reset_sources();
     hxfst_delete_buffer(bs);
     free(line_);
     return rv;
diff --git a/libhfst/src/parsers/xfst-lexer.ll b/libhfst/src/parsers/xfst-lexer.ll
index fd493e1..68afa4f 100644
--- a/libhfst/src/parsers/xfst-lexer.ll
+++ b/libhfst/src/parsers/xfst-lexer.ll
@@ -39,6 +39,20 @@ extern void hxfsterror(const char *text);
 
 int source_stack_size = 0;
 
+// Read all of 'file' to 'data' and close it.
+static bool read_source(FILE * file, std::string & data)
+{
+    char buffer[4096];
+    size_t n;
+    while ((n = fread(buffer, 1, sizeof(buffer), file)) > 0)
+    {
+        data.append(buffer, n);
+    }
+    bool ok = (ferror(file) == 0);
+    fclose(file);
+    return ok;
+}
+
 %}
 
 /* c.f. Unicode Standard 5.1 D92 Table 3-7 */
@@ -742,23 +756,33 @@ LWSP [\t ]*
     return REGEX;
 }
 
+<SOURCE_STATE>[ \t]+ { /* do not echo whitespace */ }
+
 <SOURCE_STATE>[.A-Za-z\/]{NAMECHAR}* {
   // ^ include directive
 
-  FILE * tmp = NULL;
-  if ((tmp = hfst::hfst_fopen(hfst::xfst::strstrip(hxfsttext), "r" )) != NULL)
+  char * name = hfst::xfst::strstrip(hxfsttext);
+  std::string data;
+  FILE * tmp = hfst::hfst_fopen(name, "r");
+  if (tmp == NULL)
   {
-    //printf("Opening file '%s'.\n", hfst::xfst::strstrip(hxfsttext));
-    // push the included text onto the lexer stack
-    hxfstpush_buffer_state(hxfst_create_buffer(tmp, 32000));
-    ++source_stack_size;
+    hxfsterror((std::string("Error opening file '") + name + "'\n").c_str());
+  }
+  // read the whole file before executing any of it
+  else if (!read_source(tmp, data))
+  {
+    hxfsterror((std::string("Error reading file '") + name + "'\n").c_str());
   }
   else
   {
-    char buffer [1024];
-    sprintf(buffer, "Error opening file '%s'\n",hfst::xfst::strstrip(hxfsttext));
-    hxfsterror(buffer);
+    // push the included text onto the lexer stack
+    YY_BUFFER_STATE placeholder = hxfst_create_buffer(NULL, 16);
+    hxfstpush_buffer_state(placeholder);
+    hxfst_scan_bytes(data.data(), (int)data.size());
+    hxfst_delete_buffer(placeholder);
+    ++source_stack_size;
   }
+  free(name);
   BEGIN(INITIAL);
 }
 
@@ -832,13 +856,13 @@ LWSP [\t ]*
 "!"+\n     { /* skip an empty comment */ }
 
 <<EOF>> {
-    --source_stack_size;
     // end of input
-    if (source_stack_size < 0) {
+    if (source_stack_size == 0) {
       yyterminate();
     }
     // EOF encountered because reaching end of included input
     else {
+      --source_stack_size;
       hxfstpop_buffer_state();
     }
 }
@@ -853,4 +877,15 @@ LWSP [\t ]*
     return XFST_ERROR;
 }
 
+%%
 
+// Forget the files that were being executed when parsing ended.
+void hxfst_reset_sources()
+{
+    while (source_stack_size > 0)
+    {
+        --source_stack_size;
+        hxfstpop_buffer_state();
+    }
+    BEGIN(INITIAL);
+}
-- 
2.43.0


From 641446240c8dcc8e3f153218a4cf41b74e0e6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:35 +0000
Subject: [PATCH 46/84] fix: LexcCompiler: one erroneous source does not make
 every later compilation fail; the source file is closed

---
 libhfst/src/parsers/LexcCompiler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 64168ba..d4e3df1 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -279,6 +279,7 @@ LexcCompiler::parse(FILE *infile)
     }
     hlexclex_destroy();
     hlexcin = infile;
+    hlexcnerrs = 0;
     hlexcparse();
     xre_.remove_defined_multichar_symbols();
     if (hlexcnerrs > 0)
@@ -307,7 +308,10 @@ LexcCompiler::parse(const char *filename)
         parseErrors_ = true;
         return *this;
     }
+    hlexcnerrs = 0;
     hlexcparse();
+    fclose(hlexcin);
+    hlexcin = NULL;
     xre_.remove_defined_multichar_symbols();
     if (hlexcnerrs > 0)
     {
-- 
2.43.0


From d13fd5c610b1303d97789dae29f5ec7bb33495b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:56 +0000
Subject: [PATCH 47/84] fix: LexcCompiler: the first lexicon, the definitions
 and the line numbers of one source do not carry over to the next

---
 libhfst/src/parsers/LexcCompiler.cc | 16 ++++++++++++++--
 libhfst/src/parsers/LexcCompiler.h  |  2 ++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index d4e3df1..2ca986d 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -111,6 +111,7 @@ LexcCompiler::LexcCompiler()
       error_(&std::cerr), format_(TROPICAL_OPENFST_TYPE),
       xre_(TROPICAL_OPENFST_TYPE), initialLexiconName_("Root"),
       totalEntries_(0), currentEntries_(0),
+      firstLexicon_(true),
 #ifdef WINDOWS
       output_to_console_(false), winoss_(std::ostringstream()),
       redirected_stream_(NULL),
@@ -131,6 +132,7 @@ LexcCompiler::LexcCompiler(ImplementationType impl)
       warn_missing_alphabets_(false), warn_unnecessary_escapes_(false),
       error_(&std::cerr), format_(impl), xre_(impl),
       initialLexiconName_("Root"), totalEntries_(0), currentEntries_(0),
+      firstLexicon_(true),
 #ifdef WINDOWS
       output_to_console_(false), winoss_(std::ostringstream()),
       redirected_stream_(NULL),
@@ -159,6 +161,7 @@ LexcCompiler::LexcCompiler(ImplementationType impl, bool withFlags,
       warn_missing_alphabets_(false), warn_unnecessary_escapes_(false),
       error_(&std::cerr), format_(impl), xre_(impl),
       initialLexiconName_("Root"), totalEntries_(0), currentEntries_(0),
+      firstLexicon_(true),
 #ifdef WINDOWS
       output_to_console_(false), winoss_(std::ostringstream()),
       redirected_stream_(NULL),
@@ -196,6 +199,7 @@ LexcCompiler::reset()
     initialLexiconName_ = "Root";
     totalEntries_ = 0;
     currentEntries_ = 0;
+    firstLexicon_ = true;
     parseErrors_ = false;
     lexiconNames_.clear();
     noFlags_.clear();
@@ -210,6 +214,11 @@ LexcCompiler::reset()
         delete it.second;
     }
     regexps_.clear();
+    for (const auto &name : definitions_)
+    {
+        xre_.undefine(name);
+    }
+    definitions_.clear();
 }
 
 std::ostream *
@@ -269,6 +278,7 @@ LexcCompiler &
 LexcCompiler::parse(FILE *infile)
 {
     lexc_ = this;
+    hfst::lexc::token_reset_positions();
     if (infile == stdin)
     {
         hfst::lexc::set_infile_name("<stdin>");
@@ -294,6 +304,7 @@ LexcCompiler::parse(const char *filename)
 {
     lexc_ = this;
     hlexclex_destroy();
+    hfst::lexc::token_reset_positions();
     hfst::lexc::set_infile_name(filename);
     hlexcin = hfst::hfst_fopen(filename, "r");
     if (hlexcin == NULL)
@@ -1147,6 +1158,7 @@ LexcCompiler::addXreDefinition(const string &definition_name,
 {
     // FIXME: collect implicit characters
     xre_.define(definition_name, xre);
+    definitions_.insert(definition_name);
     if (!quiet_)
     {
         std::ostream *err = get_stream(error_);
@@ -1160,7 +1172,7 @@ LexcCompiler::addXreDefinition(const string &definition_name,
 LexcCompiler &
 LexcCompiler::setCurrentLexiconName(const string &lexiconName)
 {
-    static bool firstLexicon = true;
+    bool firstLexicon = firstLexicon_;
     currentLexiconName_ = lexiconName;
 
     if (lexiconNames_.find(lexiconName) != lexiconNames_.end())
@@ -1236,7 +1248,7 @@ LexcCompiler::setCurrentLexiconName(const string &lexiconName)
     }
     if (!quiet_)
         *err << lexiconName << "...";
-    firstLexicon = false;
+    firstLexicon_ = false;
 
     flush(err);
 
diff --git a/libhfst/src/parsers/LexcCompiler.h b/libhfst/src/parsers/LexcCompiler.h
index 6838fb7..8c4b9a9 100644
--- a/libhfst/src/parsers/LexcCompiler.h
+++ b/libhfst/src/parsers/LexcCompiler.h
@@ -209,6 +209,8 @@ class LexcCompiler
     std::string currentLexiconName_;
     size_t totalEntries_;
     size_t currentEntries_;
+    bool firstLexicon_;
+    std::set<std::string> definitions_;
 };
 
 // ugh, the global
-- 
2.43.0


From f0cd88a042af78aac44a3984f5f1f5cdc10c2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:26 +0000
Subject: [PATCH 48/84] fix: twolc: a source that cannot be read to its end, or
 opened, is an error

---
 libhfst/src/parsers/io_src/InputReader.cc | 33 +++++++++++++++++++----
 libhfst/src/parsers/io_src/InputReader.h  |  4 +++
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/parsers/io_src/InputReader.cc b/libhfst/src/parsers/io_src/InputReader.cc
index d3b6637..ef92735 100644
--- a/libhfst/src/parsers/io_src/InputReader.cc
+++ b/libhfst/src/parsers/io_src/InputReader.cc
@@ -15,6 +15,8 @@
 //   along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 #include "InputReader.h"
+#include "../../HfstExceptionDefs.h"
+#include <cstdio>
 #include <unistd.h>
 
 #define COLOUR_BOLD "\033[01m"
@@ -42,8 +44,8 @@ should_colourise()
 
 InputReader::InputReader(size_t &counter)
     : input_stream(NULL), filename("<unknown>"), counter(counter),
-      buffer_size(HTWOLCBUFFERSIZE), buffer_index(0), warning_stream(NULL),
-      error_stream(NULL)
+      buffer_size(HTWOLCBUFFERSIZE), buffer_index(0), unreadable(false),
+      warning_stream(NULL), error_stream(NULL)
 {
 }
 
@@ -54,16 +56,27 @@ InputReader::reset()
     // counter is a reference, so it must be reset separately
     buffer_size = HTWOLCBUFFERSIZE;
     buffer_index = 0;
+    unreadable = false;
     warning_stream = NULL;
     error_stream = NULL;
 }
 
+void
+InputReader::read_line()
+{
+    input_stream->getline(buffer, buffer_size);
+    // A line that is too long or cannot be read is not the end of the input.
+    unreadable = input_stream->bad()
+                 || (input_stream->fail() && !input_stream->eof())
+                 || (input_stream == &std::cin && ferror(stdin));
+}
+
 void
 InputReader::set_input(std::istream &file)
 {
     input_stream = &file;
     filename = "<stdin>";
-    input_stream->getline(buffer, buffer_size);
+    read_line();
 }
 
 void
@@ -71,7 +84,7 @@ InputReader::set_input(std::istream &file, const std::string &filename)
 {
     input_stream = &file;
     this->filename = filename;
-    input_stream->getline(buffer, buffer_size);
+    read_line();
 }
 
 void
@@ -142,9 +155,19 @@ InputReader::input(void)
     {
         throw InputNotSet();
     }
+    if (unreadable)
+    {
+        HFST_THROW_MESSAGE(StreamNotReadableException,
+                           "reading " + filename + " failed");
+    }
     if (buffer[buffer_index] == 0)
     {
-        input_stream->getline(buffer, buffer_size);
+        read_line();
+        if (unreadable)
+        {
+            HFST_THROW_MESSAGE(StreamNotReadableException,
+                               "reading " + filename + " failed");
+        }
         // XXX?
         if (input_stream->gcount() == 0)
         {
diff --git a/libhfst/src/parsers/io_src/InputReader.h b/libhfst/src/parsers/io_src/InputReader.h
index db0f446..60f31f9 100644
--- a/libhfst/src/parsers/io_src/InputReader.h
+++ b/libhfst/src/parsers/io_src/InputReader.h
@@ -55,9 +55,13 @@ class InputReader
     char buffer[HTWOLCBUFFERSIZE];
     size_t buffer_size;
     size_t buffer_index;
+    bool unreadable;
     std::ostream *warning_stream;
     std::ostream *error_stream;
 
+    //! @brief Read the next line of input into the buffer.
+    void read_line();
+
   public:
     //! @brief Initialize a reader with line counter @a counter.
     //!
-- 
2.43.0


From 13da0371da740d542fe436f6384a727fc46236c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:39 +0000
Subject: [PATCH 49/84] fix: TwolcCompiler: an erroneous source does not make
 every later compilation fail

---
 libhfst/src/parsers/htwolcpre1-lexer.ll  | 4 ++++
 libhfst/src/parsers/htwolcpre1-parser.yy | 2 +-
 libhfst/src/parsers/htwolcpre2-lexer.ll  | 4 ++++
 libhfst/src/parsers/htwolcpre3-parser.yy | 5 +++++
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/htwolcpre1-lexer.ll b/libhfst/src/parsers/htwolcpre1-lexer.ll
index c1df1d4..06cf0f2 100644
--- a/libhfst/src/parsers/htwolcpre1-lexer.ll
+++ b/libhfst/src/parsers/htwolcpre1-lexer.ll
@@ -65,10 +65,14 @@ result = 1; \
 
   void reduce_queue(bool variable_symbol=false);
 
+int htwolcpre1lex_destroy();
+
 namespace hfst {
 namespace twolcpre1 {
 void reset_lexer()
 {
+  // An error leaves unread input in the buffer of the lexer.
+  htwolcpre1lex_destroy();
   regexp_start = false;
   htwolcpre1_rules_start = false;
   where_seen = false;
diff --git a/libhfst/src/parsers/htwolcpre1-parser.yy b/libhfst/src/parsers/htwolcpre1-parser.yy
index be130a2..4ebd8b7 100644
--- a/libhfst/src/parsers/htwolcpre1-parser.yy
+++ b/libhfst/src/parsers/htwolcpre1-parser.yy
@@ -126,7 +126,7 @@ void reset_parser()
   htwolcpre1_input_reader.reset();
   variable_value_map = VariableValueMap();
   rule_variables = RuleVariables();
-  //rule_symbol_vector.reset();
+  rule_symbol_vector.clear();
   htwolcpre1_symbol_queue = HandyDeque<std::string>();
   sets = HandySet<std::string>();
   definitions = HandySet<std::string>();
diff --git a/libhfst/src/parsers/htwolcpre2-lexer.ll b/libhfst/src/parsers/htwolcpre2-lexer.ll
index 1eb9a68..62a82d6 100644
--- a/libhfst/src/parsers/htwolcpre2-lexer.ll
+++ b/libhfst/src/parsers/htwolcpre2-lexer.ll
@@ -59,10 +59,14 @@ result = 1; \
   // __HFST_TWOLC_; is seen.
   bool alphabet_ended = false;
 
+int htwolcpre2lex_destroy();
+
 namespace hfst {
 namespace twolcpre2 {
 void reset_lexer()
 {
+  // An error leaves unread input in the buffer of the lexer.
+  htwolcpre2lex_destroy();
   alphabet_ended = false;
 }
 }}
diff --git a/libhfst/src/parsers/htwolcpre3-parser.yy b/libhfst/src/parsers/htwolcpre3-parser.yy
index 25eb7b4..4aebab6 100644
--- a/libhfst/src/parsers/htwolcpre3-parser.yy
+++ b/libhfst/src/parsers/htwolcpre3-parser.yy
@@ -68,6 +68,7 @@ should_colourise()
   void htwolcpre3warn(const char * warning );
   void htwolcpre3message(const std::string &m);
   int htwolcpre3lex();
+  int htwolcpre3lex_destroy();
   int htwolcpre3parse();
 
   bool silent_ = false;
@@ -144,10 +145,14 @@ namespace hfst {
 
   void reset_parser()
   {
+    // An error leaves unread input in the buffer of the lexer.
+    htwolcpre3lex_destroy();
     htwolcpre3_line_number = 1;
     htwolcpre3_input_reader.reset();
     alphabet = Alphabet();
     definition_map = HandyMap<std::string,OtherSymbolTransducer>();
+    // A grammar does not have to have diacritics.
+    OtherSymbolTransducer::define_diacritics(std::vector<std::string>());
   }
 
 }}
-- 
2.43.0


From 444f07109784c1a79d35a3e13da9290bf266a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:53 +0000
Subject: [PATCH 50/84] fix: XreCompiler: the options of a compiler are its own

---
 libhfst/src/parsers/XreCompiler.cc | 75 +++++++++++++++++++++---------
 libhfst/src/parsers/XreCompiler.h  |  3 ++
 2 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/libhfst/src/parsers/XreCompiler.cc b/libhfst/src/parsers/XreCompiler.cc
index 166ed82..f30e257 100644
--- a/libhfst/src/parsers/XreCompiler.cc
+++ b/libhfst/src/parsers/XreCompiler.cc
@@ -36,13 +36,48 @@ namespace hfst { namespace xre {
     bool verbose_(false);
     std::set<std::string> * defined_multichar_symbols_(NULL);
 
+extern bool expand_definitions;
+extern bool harmonize_;
+extern bool harmonize_flags_;
+
+// The options of a compiler are in effect while it compiles, and the state of
+// the compilation that they interrupt is restored after that.
+class CompilationOptions
+{
+  public:
+    CompilationOptions(bool expand, bool harmonize, bool harmonize_flags) :
+      expand_before(expand_definitions), harmonize_before(harmonize_),
+      harmonize_flags_before(harmonize_flags_), cr_before(cr)
+    {
+      expand_definitions = expand;
+      harmonize_ = harmonize;
+      harmonize_flags_ = harmonize_flags;
+      cr = 0;
+    }
+    ~CompilationOptions()
+    {
+      expand_definitions = expand_before;
+      harmonize_ = harmonize_before;
+      harmonize_flags_ = harmonize_flags_before;
+      cr = cr_before;
+    }
+  private:
+    bool expand_before;
+    bool harmonize_before;
+    bool harmonize_flags_before;
+    unsigned int cr_before;
+};
+
 XreCompiler::XreCompiler() :
     definitions_(),
     function_definitions_(),
     function_arguments_(),
     list_definitions_(),
     format_(hfst::TROPICAL_OPENFST_TYPE),
-    verbose_(false)
+    verbose_(false),
+    expand_definitions_(false),
+    harmonize_(true),
+    harmonize_flags_(false)
 #ifdef WINDOWS
     , output_to_console_(false)
 #endif
@@ -54,7 +89,10 @@ XreCompiler::XreCompiler(hfst::ImplementationType impl) :
     function_arguments_(),
     list_definitions_(),
     format_(impl),
-    verbose_(false)
+    verbose_(false),
+    expand_definitions_(false),
+    harmonize_(true),
+    harmonize_flags_(false)
 #ifdef WINDOWS
     , output_to_console_(false)
 #endif
@@ -66,7 +104,11 @@ XreCompiler::XreCompiler(hfst::ImplementationType impl) :
     function_arguments_(args.function_arguments),
     list_definitions_(args.list_definitions),
     format_(args.format),
-    verbose_(false)
+    verbose_(false),
+    // the options of the compilation that this one is a part of
+    expand_definitions_(hfst::xre::expand_definitions),
+    harmonize_(hfst::xre::harmonize_),
+    harmonize_flags_(hfst::xre::harmonize_flags_)
 #ifdef WINDOWS
     , output_to_console_(false)
 #endif
@@ -249,25 +291,19 @@ XreCompiler::add_defined_multichar_symbol(const std::string & symbol)
   defined_multichar_symbols_->insert(symbol);
 }
 
-extern bool expand_definitions;
-extern bool harmonize_;
-extern bool harmonize_flags_;
-    //extern bool verbose_;
-    //extern FILE * warning_stream;
-
 void XreCompiler::set_expand_definitions(bool expand)
 {
-  expand_definitions=expand;
+  expand_definitions_=expand;
 }
 
 void XreCompiler::set_harmonization(bool harmonize)
 {
-  harmonize_=harmonize;
+  this->harmonize_=harmonize;
 }
 
 void XreCompiler::set_flag_harmonization(bool harmonize_flags)
 {
-  harmonize_flags_=harmonize_flags;
+  this->harmonize_flags_=harmonize_flags;
 }
 
 bool
@@ -281,12 +317,11 @@ XreCompiler::compile(const std::string& xre)
 {
   // debug
   //std::cerr << "XreCompiler: " << this << " : compile(\"" << xre << "\")" << std::endl;
-  unsigned int cr_before = cr;
-  cr = 0;
+  CompilationOptions options
+    (expand_definitions_, this->harmonize_, this->harmonize_flags_);
   try
     {
       HfstTransducer * retval = hfst::xre::compile(xre, definitions_, function_definitions_, function_arguments_, list_definitions_, format_);
-      cr = cr_before;
       return retval;
     }
   catch (const char * msg)
@@ -303,13 +338,12 @@ XreCompiler::compile_first(const std::string& xre, unsigned int & chars_read)
 {
   // debug
   //std::cerr << "XreCompiler: " << this << " : compile_first(\"" << xre << "\"";
-  unsigned int cr_before = cr;
-  cr = 0;
+  CompilationOptions options
+    (expand_definitions_, this->harmonize_, this->harmonize_flags_);
   try
     {
       HfstTransducer * retval = hfst::xre::compile_first(xre, definitions_, function_definitions_, function_arguments_, list_definitions_, format_, chars_read);
       //std::cerr << ", " << chars_read << ")" << std::endl;
-      cr = cr_before;
       return retval;
     }
   catch (const char * msg)
@@ -326,8 +360,8 @@ bool XreCompiler::get_positions_of_symbol_in_xre
 {
   position_symbol = strdup(symbol.c_str());
   positions.clear();
-  unsigned int cr_before = cr;
-  cr = 0;
+  CompilationOptions options
+    (expand_definitions_, this->harmonize_, this->harmonize_flags_);
   HfstTransducer * compiled =
     hfst::xre::compile(xre, definitions_, function_definitions_, function_arguments_, list_definitions_, format_);
   free(position_symbol);
@@ -341,7 +375,6 @@ bool XreCompiler::get_positions_of_symbol_in_xre
     }
   delete compiled;
   positions_ = positions;
-  cr = cr_before;
   return true;
 }
 
diff --git a/libhfst/src/parsers/XreCompiler.h b/libhfst/src/parsers/XreCompiler.h
index 2e9b718..6e03443 100644
--- a/libhfst/src/parsers/XreCompiler.h
+++ b/libhfst/src/parsers/XreCompiler.h
@@ -166,6 +166,9 @@ class XreCompiler
   std::map<std::string, std::set<std::string> > list_definitions_;
   hfst::ImplementationType format_;
   bool verbose_;
+  bool expand_definitions_;
+  bool harmonize_;
+  bool harmonize_flags_;
 #ifdef WINDOWS
   bool output_to_console_;
   // global std::ostringstream * winoss_;
-- 
2.43.0


From 94f52bb4b987b9963cd479c320f45321ddeef830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:53 +0000
Subject: [PATCH 51/84] fix: regular expressions: a file that cannot be opened
 or read to its end is an error

---
 libhfst/src/parsers/xre_parse.yy | 55 ++++++++++++++++++++++----------
 libhfst/src/parsers/xre_utils.cc | 19 +++++++++++
 libhfst/src/parsers/xre_utils.h  |  6 ++++
 3 files changed, 63 insertions(+), 17 deletions(-)

diff --git a/libhfst/src/parsers/xre_parse.yy b/libhfst/src/parsers/xre_parse.yy
index 6a5d1c3..9524152 100644
--- a/libhfst/src/parsers/xre_parse.yy
+++ b/libhfst/src/parsers/xre_parse.yy
@@ -1070,9 +1070,8 @@ REGEXP12: LABEL { $$ = $1; }
             }
             catch (const HfstException & )
             {
-                char msg [256];
-                sprintf(msg, "Error reading transducer file '%s'.", $1);
-                xreerror(msg);
+                std::string msg = std::string("Error reading transducer file '") + $1 + "'.";
+                xreerror(msg.c_str());
                 free($1);
                 YYABORT;
             }
@@ -1090,14 +1089,19 @@ REGEXP12: LABEL { $$ = $1; }
             {
                 HfstBasicTransducer tmp;
                 HfstTokenizer tok;
-                char line [1000];
-                while( fgets(line, 1000, f) != NULL )
+                std::string line;
+                while (hfst::xre::read_line(f, line))
                 {
-                    hfst::xre::strip_newline(line);
                     StringPairVector spv = tok.tokenize(line, false); // XXX
                     tmp.disjunct(spv, 0);
                 }
+                bool unreadable = (ferror(f) != 0);
                 fclose(f);
+                if (unreadable)
+                {
+                    xreerror("Error reading text file.\n");
+                    YYABORT;
+                }
                 HfstTransducer * retval =
                     new HfstTransducer(tmp, hfst::xre::format);
                 retval->optimize();
@@ -1117,15 +1121,20 @@ REGEXP12: LABEL { $$ = $1; }
             {
                 HfstTokenizer tok;
                 HfstBasicTransducer tmp;
-                char line [1000];
-                while( fgets(line, 1000, f) != NULL )
+                std::string line;
+                while (hfst::xre::read_line(f, line))
                 {
-                    hfst::xre::strip_newline(line);
                     StringPairVector spv =
                         HfstTokenizer::tokenize_space_separated(line);
                     tmp.disjunct(spv, 0);
                 }
+                bool unreadable = (ferror(f) != 0);
                 fclose(f);
+                if (unreadable)
+                {
+                    xreerror("Error reading spaced-text file.\n");
+                    YYABORT;
+                }
                 HfstTransducer * retval =
                     new HfstTransducer(tmp, hfst::xre::format);
                 retval->optimize();
@@ -1149,6 +1158,10 @@ REGEXP12: LABEL { $$ = $1; }
                     HfstBasicTransducer tmp =
                         HfstBasicTransducer::read_in_prolog_format(f,
                             linecount);
+                    if (ferror(f))
+                      {
+                        HFST_THROW(StreamNotReadableException);
+                      }
                     fclose(f);
                     HfstTransducer * retval = new HfstTransducer(tmp, hfst::xre::format);
                     retval->optimize();
@@ -1165,22 +1178,30 @@ REGEXP12: LABEL { $$ = $1; }
         | READ_RE {
             FILE * f = NULL;
             f = hfst::hfst_fopen($1, "r");
+            free($1);
             if (f == NULL)
             {
                 xreerror("File cannot be opened.\n");
-                fclose(f);
-                free($1);
                 YYABORT;
             }
             else
             {
-                fclose(f);
                 // read the regex in a string
-                std::ifstream ifs($1);
-                free($1);
-                std::stringstream buffer;
-                buffer << ifs.rdbuf();
-                char * regex_string = strdup(buffer.str().c_str());
+                std::string regex;
+                char buffer [1024];
+                size_t n = 0;
+                while ((n = fread(buffer, 1, sizeof(buffer), f)) > 0)
+                {
+                    regex.append(buffer, n);
+                }
+                bool unreadable = (ferror(f) != 0);
+                fclose(f);
+                if (unreadable)
+                {
+                    xreerror("Error reading regex file.\n");
+                    YYABORT;
+                }
+                char * regex_string = strdup(regex.c_str());
                 // create a new scanner for evaluating the regex
                 yyscan_t scanner;
                 xrelex_init(&scanner);
diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index aafc469..e699203 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -233,6 +233,25 @@ getinput(char *buf, int maxlen)
     return retval;
 }
 
+bool
+read_line(FILE *f, std::string &line)
+{
+    line.clear();
+    int c = getc(f);
+    if (c == EOF)
+    {
+        return false;
+    }
+    for (; c != EOF && c != '\n'; c = getc(f))
+    {
+        line.push_back((char)c);
+    }
+    // The line ends at a carriage return or a NUL, too.
+    line.resize(strlen(line.c_str()));
+    line.resize(std::min(line.find('\r'), line.size()));
+    return true;
+}
+
 char *
 strip_newline(char *s)
 {
diff --git a/libhfst/src/parsers/xre_utils.h b/libhfst/src/parsers/xre_utils.h
index aa45a50..e289e30 100644
--- a/libhfst/src/parsers/xre_utils.h
+++ b/libhfst/src/parsers/xre_utils.h
@@ -55,6 +55,12 @@ char* strip_percents(const char *s);
 
  char* strip_newline(char *s);
 
+/**
+ * @brief read one line of any length of @a f, without the newline or CR.
+ * Whether there was a line; ferror(f) tells if reading failed.
+ */
+bool read_line(FILE *f, std::string &line);
+
  void count_lines(const char * s);
 
 /**
-- 
2.43.0


From e18a70e8849b65c7ba85060f272e144ab121c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:53 +0000
Subject: [PATCH 52/84] fix: pmatch, read_lexc: a file that cannot be read is
 an error, and a failed script does not make the next one fail

---
 libhfst/src/HfstTransducer.cc       | 11 +++--
 libhfst/src/parsers/pmatch_parse.yy | 21 ++++++--
 libhfst/src/parsers/pmatch_utils.cc | 77 ++++++++++++++++++++++++-----
 3 files changed, 90 insertions(+), 19 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 865b14c..9d7443d 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -6094,6 +6094,11 @@ HfstTransducer::read_lexc(const std::string &filename, ImplementationType type,
                           bool verbose)
 {
     HfstTransducer *ptr = read_lexc_ptr(filename, type, verbose);
+    if (ptr == NULL)
+    {
+        HFST_THROW_MESSAGE(HfstException,
+                           "could not compile lexc file " + filename);
+    }
     HfstTransducer retval(*ptr);
     delete ptr;
     return retval;
@@ -6114,8 +6119,6 @@ HfstTransducer::read_lexc_ptr(const std::string &filename,
             "ImplementationTypeNotAvailableException", __FILE__, __LINE__,
             type);
 
-    HfstTransducer *retval = new HfstTransducer();
-
     switch (type)
     {
 #if HAVE_FOMA
@@ -6135,8 +6138,7 @@ HfstTransducer::read_lexc_ptr(const std::string &filename,
         hfst::lexc::LexcCompiler compiler(type);
         compiler.setVerbosity(verbose);
         compiler.parse(filename.c_str());
-        retval = compiler.compileLexical();
-        return retval;
+        return compiler.compileLexical();
         break;
     }
 #endif
@@ -6150,7 +6152,6 @@ HfstTransducer::read_lexc_ptr(const std::string &filename,
     default:
         HFST_THROW(TransducerHasWrongTypeException);
     }
-    return retval;
 }
 
 std::ostream &
diff --git a/libhfst/src/parsers/pmatch_parse.yy b/libhfst/src/parsers/pmatch_parse.yy
index 8851c29..bceaf3e 100644
--- a/libhfst/src/parsers/pmatch_parse.yy
+++ b/libhfst/src/parsers/pmatch_parse.yy
@@ -683,6 +683,7 @@ READ_FROM: READ_BIN {
         read = new HfstTransducer(instream);
         instream.close();
     } catch(HfstException) {
+        delete read;
         std::string ermsg =
             std::string("Couldn't read transducer from ") +
             filepath;
@@ -711,6 +712,9 @@ READ_FROM: READ_BIN {
         try {
             unsigned int linecount = 0;
             HfstBasicTransducer tmp = HfstBasicTransducer::read_in_prolog_format(f, linecount);
+            if (ferror(f)) {
+                HFST_THROW(StreamNotReadableException);
+            }
             fclose(f);
             HfstTransducer * t = new HfstTransducer(tmp, hfst::pmatch::format);
             t->minimize();
@@ -725,7 +729,12 @@ READ_FROM: READ_BIN {
 } | READ_LEXC {
     std::string filepath = hfst::pmatch::path_from_filename($1);
     free($1);
-    $$ = new PmatchTransducerContainer(hfst::HfstTransducer::read_lexc_ptr(filepath, format, hfst::pmatch::verbose));
+    HfstTransducer * lexicon = hfst::HfstTransducer::read_lexc_ptr(filepath, format, hfst::pmatch::verbose);
+    if (lexicon == NULL) {
+        std::string ermsg = std::string("Failed to compile lexc file ") + filepath;
+        pmatcherror(ermsg.c_str());
+    }
+    $$ = new PmatchTransducerContainer(lexicon);
 } | READ_RE {
     std::string filepath = hfst::pmatch::path_from_filename($1);
     free($1);
@@ -737,13 +746,19 @@ READ_FROM: READ_BIN {
             regex.append(tmp);
         }
     }
-    if (regex.size() == 0) {
+    if (regex.size() == 0 || regexfile.bad()) {
         std::stringstream err;
         err << "Failed to read regex from " << filepath << ".\n";
         pmatcherror(err.str().c_str());
     }
     hfst::xre::XreCompiler xre_compiler;
-    $$ = new PmatchTransducerContainer(xre_compiler.compile(regex));
+    HfstTransducer * compiled = xre_compiler.compile(regex);
+    if (compiled == NULL) {
+        std::stringstream err;
+        err << "Failed to compile the regex in " << filepath << ".\n";
+        pmatcherror(err.str().c_str());
+    }
+    $$ = new PmatchTransducerContainer(compiled);
     };
 
 CONTEXT_CONDITION:
diff --git a/libhfst/src/parsers/pmatch_utils.cc b/libhfst/src/parsers/pmatch_utils.cc
index 5d53051..e29e473 100644
--- a/libhfst/src/parsers/pmatch_utils.cc
+++ b/libhfst/src/parsers/pmatch_utils.cc
@@ -33,6 +33,7 @@ using std::string;
 extern int pmatchlineno;
 extern char *pmatchtext;
 extern int pmatchparse();
+extern int pmatchlex_destroy();
 extern int pmatchnerrs;
 
 #define COLOUR_BOLD "\033[01m"
@@ -62,7 +63,11 @@ int
 pmatcherror(const char *msg)
 {
     std::string parsedata;
-    if (strlen(hfst::pmatch::data) < 60)
+    if (hfst::pmatch::data == NULL)
+    {
+        // Not parsing yet.
+    }
+    else if (strlen(hfst::pmatch::data) < 60)
     {
         parsedata = hfst::pmatch::data;
     }
@@ -92,8 +97,11 @@ pmatcherror(const char *msg)
     std::ostringstream ss;
     ss << pmatchlineno;
     errmsg.append(ss.str());
-    errmsg.append(" near ");
-    errmsg.append(pmatchtext);
+    if (hfst::pmatch::data != NULL && pmatchtext != NULL)
+    {
+        errmsg.append(" near ");
+        errmsg.append(pmatchtext);
+    }
     errmsg.append("\n");
 
     // TODO: clean the potentially large amounts of data we're leaking in case
@@ -197,9 +205,13 @@ warn(std::string warning)
 PmatchUtilityTransducers *
 get_utils()
 {
-    if (utils == NULL)
+    // The utilities are of the type of the script that is being compiled.
+    static hfst::ImplementationType utils_format;
+    if (utils == NULL || utils_format != format)
     {
+        delete utils;
         utils = new PmatchUtilityTransducers();
+        utils_format = format;
     }
     return utils;
 }
@@ -1393,6 +1405,8 @@ init_globals(void)
     eval_stack.clear();
     def_insed_expressions.clear();
     inserted_names.clear();
+    uncomposed.clear();
+    word_vectors.clear();
     unsatisfied_insertions.clear();
     used_definitions.clear();
     function_names.clear();
@@ -1489,6 +1503,13 @@ expand_includes(const string &script)
                     retval.push_back(c);
                     c = infile.get();
                 }
+                if (infile.bad())
+                {
+                    std::stringstream errstring;
+                    errstring << "could not read file " << filepath
+                              << " for @include\n";
+                    pmatcherror(errstring.str().c_str());
+                }
                 infile.close();
                 it += 10 + filename_len;
                 continue;
@@ -1507,6 +1528,12 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
 {
     // lock here?
     init_globals();
+    // An error in an earlier script leaves its unread part in the buffer of
+    // the lexer.
+    pmatchlex_destroy();
+    pmatchlineno = 1;
+    data = NULL;
+    includedir = includedir_;
     string expanded_script = expand_includes(pmatch);
     data = strdup(expanded_script.c_str());
     startptr = data;
@@ -1514,7 +1541,6 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
     verbose = be_verbose;
     flatten = do_flatten;
     include_cosine_distances = do_include_cosine_distances;
-    includedir = includedir_;
     vector_similarity_projection_factor = 1.0;
     for (map<string, HfstTransducer *>::iterator it = defs.begin();
          it != defs.end(); ++it)
@@ -1527,8 +1553,19 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
         timer = clock();
         std::cerr << std::endl;
     }
-    pmatchparse();
+    try
+    {
+        pmatchparse();
+    }
+    catch (...)
+    {
+        free(startptr);
+        data = NULL;
+        len = 0;
+        throw;
+    }
     free(startptr);
+    data = NULL;
     std::map<std::string, hfst::HfstTransducer *> retval;
     for (std::set<std::string>::const_iterator it
          = unsatisfied_insertions.begin();
@@ -1843,6 +1880,16 @@ write_compilation_stack_indentation_to_err(void)
     }
 }
 
+static void
+unreadable_file(const char *what, const std::string &filename)
+{
+    std::string msg("could not read ");
+    msg.append(what);
+    msg.append(" file ");
+    msg.append(filename);
+    pmatcherror(msg.c_str());
+}
+
 HfstTransducer *
 read_text(std::string filename, ImplementationType type, bool spaced_text)
 {
@@ -1853,8 +1900,8 @@ read_text(std::string filename, ImplementationType type, bool spaced_text)
     HfstTransducer *retval = new HfstTransducer(type);
     if (!infile.good())
     {
-        std::cerr << "Pmatch: could not open text file " << filename
-                  << " for reading\n";
+        delete retval;
+        unreadable_file("text", filename);
     }
     else
     {
@@ -1876,6 +1923,11 @@ read_text(std::string filename, ImplementationType type, bool spaced_text)
                 }
             }
         }
+        if (infile.bad())
+        {
+            delete retval;
+            unreadable_file("text", filename);
+        }
     }
     infile.close();
     return retval;
@@ -1925,9 +1977,7 @@ read_vec(std::string filename)
     infile.open(filename.c_str());
     if (!infile.good())
     {
-        std::cerr << "pmatch: could not open vector file " << filename
-                  << " for reading\n";
-        return;
+        unreadable_file("vector", filename);
     }
     std::getline(infile, line);
     std::stringstream ss(line);
@@ -2022,12 +2072,17 @@ read_vec(std::string filename)
             word_vectors.push_back(wv);
         }
     }
+    if (infile.bad())
+    {
+        unreadable_file("vector", filename);
+    }
     infile.close();
     if (verbose)
     {
         if (word_vectors.size() == 0)
         {
             std::cerr << "Tried to read word vector file, empty result\n";
+            return;
         }
         std::cerr << "Read " << word_vectors.size()
                   << " vectors of dimensionality "
-- 
2.43.0


From 2f6ac156f2d147813269b71c99f0fa9d08ca11d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:33 +0000
Subject: [PATCH 53/84] fix: unreadable sources of hfst-pmatch2fst,
 hfst-regexp2fst and hfst-calculate are errors; a failing replace rule or a
 script without TOP does not end the process

---
 libhfst/src/HfstTransducer.cc       | 10 +++-------
 libhfst/src/parsers/SfstCompiler.cc | 12 +++++++++---
 libhfst/src/parsers/pmatch_utils.cc | 28 ++++++++++++++--------------
 tools/src/hfst-file-to-mem.cc       | 14 ++++++++++++--
 tools/src/hfst-pmatch2fst.cc        |  8 ++++++--
 5 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 9d7443d..3ef910e 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -1369,11 +1369,6 @@ HfstTransducer::HfstTransducer(
 
 HfstTransducer::~HfstTransducer(void)
 {
-    if (!is_lean_implementation_type_available(type))
-        throw ImplementationTypeNotAvailableException(
-            "ImplementationTypeNotAvailableException", __FILE__, __LINE__,
-            type);
-
     switch (type)
     {
 #if HAVE_SFST || HAVE_LEAN_SFST
@@ -1408,9 +1403,10 @@ HfstTransducer::~HfstTransducer(void)
         delete implementation.hfst_ol;
         break;
     case ERROR_TYPE:
-        HFST_THROW(TransducerHasWrongTypeException);
+    case UNSPECIFIED_TYPE:
     default:
-        HFST_THROW(FunctionNotImplementedException);
+        // Nothing has been allocated, and a destructor must not throw.
+        break;
     }
 }
 
diff --git a/libhfst/src/parsers/SfstCompiler.cc b/libhfst/src/parsers/SfstCompiler.cc
index 089322a..d86e82d 100644
--- a/libhfst/src/parsers/SfstCompiler.cc
+++ b/libhfst/src/parsers/SfstCompiler.cc
@@ -649,7 +649,7 @@ namespace hfst
     std::ifstream is(filestr.c_str());
     if (!is.is_open()) {
       static char message[1000];
-      sprintf(message,"Error: Cannot open file \"%s\"!", filestr.c_str());
+      snprintf(message,1000,"Error: Cannot open file \"%s\"!", filestr.c_str());
       throw message;
     }
     free( filename );
@@ -663,9 +663,10 @@ namespace hfst
       retval_hfst = new HfstTransducer(type);
 
     int n=0;
-    char buffer[10000];
+    std::string line;
 
-    while (is.getline(buffer, 10000)) {
+    while (std::getline(is, line)) {
+      char *buffer = &line[0];
       if (Verbose && ++n % 10000 == 0) {
     if (n == 10000)
       cerr << "\n";
@@ -702,6 +703,11 @@ namespace hfst
     if (Verbose && n >= 10000)
       cerr << "\n";
 
+    if (is.bad()) {
+      static char message[1000];
+      snprintf(message,1000,"Error: Cannot read file \"%s\"!", filestr.c_str());
+      throw message;
+    }
     is.close();
     if (Verbose)
       fprintf(stderr,"finished\n");
diff --git a/libhfst/src/parsers/pmatch_utils.cc b/libhfst/src/parsers/pmatch_utils.cc
index e29e473..0f42096 100644
--- a/libhfst/src/parsers/pmatch_utils.cc
+++ b/libhfst/src/parsers/pmatch_utils.cc
@@ -1607,6 +1607,15 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
         timer = clock();
     }
 
+    if (definitions.size() != 0 && definitions.count("TOP") == 0)
+    {
+        std::cerr << "Pmatch compilation warning: regex or TOP was "
+                     "undefined, using ";
+        std::cerr << definitions.begin()->first << " as root\n";
+        PmatchObject *root = definitions.begin()->second;
+        definitions["TOP"] = root;
+    }
+
     unsigned int uncount = 0;
     if (inserted_names.size() > 0 || def_insed_expressions.size() > 0
         || uncomposed.size() > 0)
@@ -1690,18 +1699,6 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
             retval.insert(std::pair<std::string, hfst::HfstTransducer *>(
                 "TOP", new HfstTransducer(format)));
         }
-        else if (definitions.count("TOP") == 0)
-        {
-            std::cerr << "Pmatch compilation warning: regex or TOP was "
-                         "undefined, using ";
-            std::cerr << definitions.begin()->first << " as root\n";
-            hfst::HfstTransducer *tmp
-                = definitions.begin()->second->evaluate();
-            tmp->minimize();
-            tmp->set_name("TOP");
-            retval.insert(
-                std::pair<std::string, hfst::HfstTransducer *>("TOP", tmp));
-        }
         else
         {
             hfst::HfstTransducer *tmp = definitions["TOP"]->evaluate();
@@ -1723,8 +1720,11 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
 
     StringSet allowed_initial_symbols;
     StringSet disallowed_initial_symbols;
-    definitions["TOP"]->collect_initial_symbols_into(
-        allowed_initial_symbols, disallowed_initial_symbols);
+    if (definitions.count("TOP") != 0)
+    {
+        definitions["TOP"]->collect_initial_symbols_into(
+            allowed_initial_symbols, disallowed_initial_symbols);
+    }
     std::string initial_symbols_list;
     std::string disallowed_initial_symbols_list;
     // Use this to bail out if there's something suspicious in the final lists
diff --git a/tools/src/hfst-file-to-mem.cc b/tools/src/hfst-file-to-mem.cc
index b5e6aab..6a43ac6 100644
--- a/tools/src/hfst-file-to-mem.cc
+++ b/tools/src/hfst-file-to-mem.cc
@@ -18,6 +18,11 @@ char * hfst_stdin_to_mem()
   while(true)
     {
       *(buffer + numbytes) = fgetc(stdin);
+      if (ferror(stdin))
+        {
+          error(EXIT_FAILURE, 0, "Error reading file '<stdin>' to memory\n");
+          return NULL;
+        }
       if (feof(stdin))
         {
           *(buffer + numbytes) = '\0';
@@ -26,8 +31,13 @@ char * hfst_stdin_to_mem()
       numbytes++;
       if (numbytes >= maxbytes)
         {
-          error(EXIT_FAILURE, 0, "Error reading file '<stdin>' to memory, not enough memory\n");
-          return NULL;
+          maxbytes *= 2;
+          buffer = (char*)realloc(buffer, maxbytes);
+          if (buffer == NULL)
+            {
+              error(EXIT_FAILURE, 0, "Error reading file '<stdin>' to memory, not enough memory\n");
+              return NULL;
+            }
         }
     }
   return buffer;
diff --git a/tools/src/hfst-pmatch2fst.cc b/tools/src/hfst-pmatch2fst.cc
index d2011b5..da438f0 100644
--- a/tools/src/hfst-pmatch2fst.cc
+++ b/tools/src/hfst-pmatch2fst.cc
@@ -263,6 +263,10 @@ process_stream(HfstOutputStream &outstream)
     {
         file_contents.push_back(c);
     }
+    if (ferror(inputfile))
+    {
+        hfst_error(EXIT_FAILURE, errno, "error reading %s", inputfilename);
+    }
     if (file_contents.size() > 1)
     {
         try
@@ -444,8 +448,8 @@ main(int argc, char **argv)
               ? std::make_unique<HfstOutputStream>(outfilename,
                                                    hfst::HFST_OLW_TYPE)
               : std::make_unique<HfstOutputStream>(hfst::HFST_OLW_TYPE);
-    process_stream(*outstream);
+    retval = process_stream(*outstream);
     free(inputfilename);
     free(outfilename);
-    return EXIT_SUCCESS;
+    return retval;
 }
-- 
2.43.0


From f7543e9ec9f148bc7b169fca65fdc582c5280d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:47 +0000
Subject: [PATCH 54/84] fix: LexcCompiler: a lexicon without flags can be
 compiled with flags

---
 libhfst/src/parsers/LexcCompiler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 2ca986d..5321197 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1595,10 +1595,10 @@ LexcCompiler::compileLexical()
     // Preserve only first flag of consecutive P and R lexname flag series,
     // e.g. change P.LEXNAME.1 R.LEXNAME.1 P.LEXNAME.2 R.LEXNAME.2 into
     // P.LEXNAME.1
+    StringSet flagD;
     if (with_flags_)
     {
         StringSet transducerAlphabet = rv->get_alphabet();
-        StringSet flagD;
         for (StringSet::const_iterator s = transducerAlphabet.begin();
              s != transducerAlphabet.end(); ++s)
         {
@@ -1609,7 +1609,10 @@ LexcCompiler::compileLexical()
                 flagD.insert(alph);
             }
         }
+    }
 
+    if (!flagD.empty())
+    {
         // Construct a rule for consecutive flag removal:
         // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
         // and also an inverted rule
-- 
2.43.0


From 1210e59645378e94d8cd4849bfd7a40bd0daa5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:33 +0000
Subject: [PATCH 55/84] fix: hfst-strings2fst: a multichar symbol file that
 cannot be read to its end is an error

---
 tools/src/hfst-strings2fst.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tools/src/hfst-strings2fst.cc b/tools/src/hfst-strings2fst.cc
index 72124aa..f66e90a 100644
--- a/tools/src/hfst-strings2fst.cc
+++ b/tools/src/hfst-strings2fst.cc
@@ -503,17 +503,20 @@ main(int argc, char **argv)
         {
             error(EXIT_FAILURE, errno, "Multichar symbol file can't be read.");
         }
-        char multichar_line[1000];
-        while (multichar_in.good())
+        std::string multichar_line;
+        while (std::getline(multichar_in, multichar_line))
         {
-            multichar_in.getline(multichar_line, 1000);
-            if (strlen(multichar_line) > 0)
+            if (multichar_line.size() > 0)
             {
                 verbose_printf("Defining multichar symbol %s\n",
-                               multichar_line);
+                               multichar_line.c_str());
                 multichar_symbols.push_back(multichar_line);
             }
         }
+        if (multichar_in.bad())
+        {
+            error(EXIT_FAILURE, errno, "Multichar symbol file can't be read.");
+        }
     }
 
     // close output buffers, we use output streams
-- 
2.43.0


From 52367e997652af8d711ef0bbf95562214c184073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:19 +0000
Subject: [PATCH 56/84] fix: hfst-proc: print the superblanks of an unknown
 multiword unit once, after the word

---
 tools/src/hfst-proc/formatter.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-proc/formatter.cc b/tools/src/hfst-proc/formatter.cc
index fbb1547..2b3ec33 100644
--- a/tools/src/hfst-proc/formatter.cc
+++ b/tools/src/hfst-proc/formatter.cc
@@ -248,11 +248,18 @@ ApertiumOutputFormatter::print_word(const TokenVector& surface_form,
 void
 ApertiumOutputFormatter::print_unknown_word(const TokenVector& surface_form) const
 {
+  // as with known words, any superblanks are output afterwards
+  TokenVector output_surface_form = clear_superblanks(surface_form);
   token_stream.ostream() << '^';
-  token_stream.write_escaped(surface_form);
+  token_stream.write_escaped(output_surface_form);
   token_stream.ostream() << "/*";
-  token_stream.write_escaped(surface_form);
+  token_stream.write_escaped(output_surface_form);
   token_stream.ostream() << '$';
+  for(TokenVector::const_iterator it=surface_form.begin(); it!=surface_form.end(); ++it)
+  {
+    if(it->type == Superblank)
+      token_stream.ostream() << token_stream.get_superblank(it->superblank_index);
+  }
 }
 
 
-- 
2.43.0


From 6125537ed86ee48c54cf73c209dc181e7c066883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:19 +0000
Subject: [PATCH 57/84] fix: hfst-tokenize: a NUL after a backslash ends the
 block, too

---
 tools/src/hfst-tokenize.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-tokenize.cc b/tools/src/hfst-tokenize.cc
index d921674..4c34596 100644
--- a/tools/src/hfst-tokenize.cc
+++ b/tools/src/hfst-tokenize.cc
@@ -327,7 +327,7 @@ process_input_0delim(hfst_ol::PmatchContainer &container,
         bool escaped = false; // beginning of line is necessarily unescaped
         for (ssize_t i = 0; i < len; ++i)
         {
-            if (escaped)
+            if (escaped && line[i] != '\0')
             {
                 cur << line[i];
                 escaped = false;
-- 
2.43.0


From 3aa974c4499c2f460d617c36e7ff2b07a0c22296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:19 +0000
Subject: [PATCH 58/84] fix: pmatch: tokenize invalid UTF-8 without looping,
 and keep combining characters

---
 libhfst/src/implementations/optimized-lookup/pmatch.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.cc b/libhfst/src/implementations/optimized-lookup/pmatch.cc
index 31a28c9..1bafa21 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.cc
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.cc
@@ -1880,6 +1880,7 @@ PmatchContainer::initialize_input(const char *input_s)
     while (**input_str_ptr != 0)
     {
         char *original_input_loc = *input_str_ptr;
+        k = NO_SYMBOL_NUMBER;
         if (single_codepoint_tokenization)
         {
             int bytes_to_tokenize = nByte_grapheme(*input_str_ptr);
@@ -1892,6 +1893,12 @@ PmatchContainer::initialize_input(const char *input_s)
                        bytes_to_tokenize);
                 single_codepoint_scratch[bytes_to_tokenize] = '\0';
                 k = encoder->find_key(&single_codepoint_scratch);
+                if (*single_codepoint_scratch != '\0')
+                {
+                    // only a part of the grapheme is a symbol
+                    k = NO_SYMBOL_NUMBER;
+                }
+                free(single_codepoint_scratch_orig);
                 if (k != NO_SYMBOL_NUMBER)
                 {
                     (*input_str_ptr) += bytes_to_tokenize;
-- 
2.43.0


From db9b2dc652d3acc1442a4cb748977bc3e1d3179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:19 +0000
Subject: [PATCH 59/84] fix: hfst-proc: tables indexed by a byte have 256
 entries

---
 tools/src/hfst-proc/alphabet.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/src/hfst-proc/alphabet.h b/tools/src/hfst-proc/alphabet.h
index d3b7c63..885bf09 100644
--- a/tools/src/hfst-proc/alphabet.h
+++ b/tools/src/hfst-proc/alphabet.h
@@ -39,9 +39,9 @@ class LetterTrie
 
   public:
     LetterTrie(void)
-        : letters(std::numeric_limits<unsigned char>::max(),
+        : letters(std::numeric_limits<unsigned char>::max() + 1,
                   (LetterTrie *)NULL),
-          symbols(std::numeric_limits<unsigned char>::max(), NO_SYMBOL_NUMBER)
+          symbols(std::numeric_limits<unsigned char>::max() + 1, NO_SYMBOL_NUMBER)
     {
     }
 
@@ -84,13 +84,13 @@ class Symbolizer
 
   public:
     Symbolizer()
-        : letters(), ascii_symbols(std::numeric_limits<unsigned char>::max(),
+        : letters(), ascii_symbols(std::numeric_limits<unsigned char>::max() + 1,
                                    NO_SYMBOL_NUMBER),
           symbol_count(0)
     {
     }
     Symbolizer(const SymbolTable &st)
-        : letters(), ascii_symbols(std::numeric_limits<unsigned char>::max(),
+        : letters(), ascii_symbols(std::numeric_limits<unsigned char>::max() + 1,
                                    NO_SYMBOL_NUMBER),
           symbol_count(0)
     {
-- 
2.43.0


From e056accdd2b41ff8bd8c7eddd35e182475717c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:19 +0000
Subject: [PATCH 60/84] fix: hfst-proc: do not lose, repeat or reorder text at
 its end, at NULs and after failed matches; report read errors

---
 tools/src/hfst-proc/alphabet.cc    |  9 +++++--
 tools/src/hfst-proc/applicators.cc | 26 ++++++++++----------
 tools/src/hfst-proc/tokenizer.cc   | 38 +++++++++++++++++++-----------
 tools/src/hfst-proc/tokenizer.h    |  8 +++++++
 4 files changed, 52 insertions(+), 29 deletions(-)

diff --git a/tools/src/hfst-proc/alphabet.cc b/tools/src/hfst-proc/alphabet.cc
index 168ad7b..584b39a 100644
--- a/tools/src/hfst-proc/alphabet.cc
+++ b/tools/src/hfst-proc/alphabet.cc
@@ -70,9 +70,14 @@ LetterTrie::find_symbol(const char *c) const
 SymbolNumber
 LetterTrie::extract_symbol(std::istream &is) const
 {
-    int c = is.get();
+    int c = is.peek();
     if (c == EOF)
-        return 0;
+    {
+        // let the caller put back what it has read
+        is.clear(is.rdstate() & ~std::ios::eofbit);
+        return NO_SYMBOL_NUMBER;
+    }
+    is.get();
 
     if (letters[c] == NULL)
     {
diff --git a/tools/src/hfst-proc/applicators.cc b/tools/src/hfst-proc/applicators.cc
index 97428c7..822a190 100644
--- a/tools/src/hfst-proc/applicators.cc
+++ b/tools/src/hfst-proc/applicators.cc
@@ -69,6 +69,8 @@ TokenizationApplicator::apply()
     while ((next_token = token_stream.get_token()).type != None)
     {
         std::cout << process_token(next_token) << std::endl;
+        if (token_stream.is_null(next_token))
+            token_stream << next_token;
         if (printDebuggingInformationFlag)
             alltokens.insert(next_token);
     }
@@ -92,7 +94,9 @@ AnalysisApplicator::apply()
     ProcResult analyzed_forms;
 
     Token next_token;
-    while ((next_token = token_stream.get_token()).type != None)
+    // the end of the stream ends a word like any other non-alphabetic token
+    while ((next_token = token_stream.get_token()).type != None
+           || !surface_form.empty())
     {
         if (printDebuggingInformationFlag)
         {
@@ -121,10 +125,8 @@ AnalysisApplicator::apply()
                          + next_token.character + " unescaped in stream");
 
         if (surface_form.size() > 0 && state.is_final()
-            && (!token_stream.is_alphabetic(
-                    token_stream.at(token_stream.get_pos() - 2))
-                || !token_stream.is_alphabetic(
-                    token_stream.at(token_stream.get_pos() - 1))))
+            && (!token_stream.is_alphabetic(surface_form.back())
+                || !token_stream.is_alphabetic(next_token)))
         // if we're between 2 alphabetic tokens, then this can't be a word
         // boundary so don't bother recording it
         {
@@ -163,7 +165,8 @@ AnalysisApplicator::apply()
             if (surface_form.empty()
                 && !token_stream.is_alphabetic(next_token))
             {
-                if (formatter.preserve_nonalphabetic())
+                if (formatter.preserve_nonalphabetic()
+                    || token_stream.is_null(next_token))
                     token_stream << next_token;
             }
             else if (analyzed_forms.size() == 0
@@ -175,7 +178,9 @@ AnalysisApplicator::apply()
                 // if this is false, then we need to move the token stream back
                 // far enough that next_token will be read again next iteration
                 bool next_token_is_part_of_word = false;
-                if (token_stream.is_alphabetic(next_token))
+                if (token_stream.is_alphabetic(next_token)
+                    && (surface_form.empty()
+                        || token_stream.is_alphabetic(surface_form[0])))
                 {
                     next_token_is_part_of_word = true;
                     do
@@ -192,7 +197,7 @@ AnalysisApplicator::apply()
                 {
                     if (formatter.preserve_nonalphabetic())
                         token_stream << surface_form[0];
-                    token_stream.move_back(surface_form.size() - 1);
+                    token_stream.move_back(surface_form.size());
                 }
                 else
                 {
@@ -240,11 +245,6 @@ AnalysisApplicator::apply()
 
     if (verboseFlag)
         std::cout << std::endl << "Got None/EOF symbol; done." << std::endl;
-
-    // print any valid transductions stored
-    if (analyzed_forms.size()
-        != 0) // && token_stream.get_pos() == last_stream_location)
-        formatter.print_word(surface_form, analyzed_forms);
 }
 
 //////////Function definitions for GenerationApplicator
diff --git a/tools/src/hfst-proc/tokenizer.cc b/tools/src/hfst-proc/tokenizer.cc
index 3ddaff7..d6a358c 100644
--- a/tools/src/hfst-proc/tokenizer.cc
+++ b/tools/src/hfst-proc/tokenizer.cc
@@ -12,6 +12,7 @@
 
 #include "tokenizer.h"
 #include "transducer.h"
+#include <cstdio>
 #include <cstdlib>
 
 //////////Function definitions for TokenIOStream
@@ -201,8 +202,6 @@ TokenIOStream::read_delimited(const char delim)
             result += c;
             if (c == '\\')
                 result += read_escaped();
-            else if (null_flush && c == '\0')
-                do_null_flush();
             else if (c == '[')
             {
                 int next_char = is.peek();
@@ -221,8 +220,6 @@ TokenIOStream::read_delimited(const char delim)
         result += c;
         if (c == '\\')
             result += read_escaped();
-        if (null_flush && c == '\0')
-            do_null_flush();
     }
 
     if (is_wblank)
@@ -273,10 +270,6 @@ TokenIOStream::make_token(bool was_escaped)
     // the next thing in the stream is not a symbol
     // (extract_symbol moved the stream back to before anything was read)
     std::string ch = read_utf8_char();
-    if (null_flush && ch.empty())
-    {
-        do_null_flush();
-    }
     if (was_escaped)
     {
         return Token::as_character(ch.c_str());
@@ -291,13 +284,18 @@ Token
 TokenIOStream::read_token()
 {
     int next_char = is.peek();
-    if (is.eof())
+    if (next_char == EOF)
+    {
+        if (is.bad() || (&is == &std::cin && ferror(stdin)))
+            stream_error("Could not read input");
         return Token();
+    }
 
-    if (next_char == 0 && null_flush)
+    if (next_char == 0)
     {
-        do_null_flush();
-        return Token::as_character(is.get());
+        // passed on, and flushed if requested, once everything before it has
+        // been written
+        return Token::as_character((char)is.get());
     }
 
     if (escaped_chars.find(next_char) != escaped_chars.end())
@@ -310,6 +308,9 @@ TokenIOStream::read_token()
 
         case '\\':
             next_char = is.get(); // get the peeked char for real
+            next_char = is.peek();
+            if (next_char == EOF || next_char == 0)
+                stream_error("Found non-reserved character after backslash");
             return make_token(true);
 
         case '<':
@@ -373,15 +374,24 @@ TokenIOStream::get_token()
     if (!token_buffer.isEmpty())
         return token_buffer.next();
 
+    // the end of the stream has its place in the buffer, too, so that the
+    // tokens before it can be moved back to
     Token token = read_token();
-    if (token.type != None)
-        token_buffer.add(token);
+    token_buffer.add(token);
     return token;
 }
 
 void
 TokenIOStream::put_token(const Token &t)
 {
+    if (is_null(t))
+    {
+        if (null_flush)
+            do_null_flush();
+        else
+            os << '\0';
+        return;
+    }
     os << token_to_string(t);
 }
 
diff --git a/tools/src/hfst-proc/tokenizer.h b/tools/src/hfst-proc/tokenizer.h
index 0ea02da..67d0d64 100644
--- a/tools/src/hfst-proc/tokenizer.h
+++ b/tools/src/hfst-proc/tokenizer.h
@@ -255,6 +255,14 @@ class TokenIOStream
         return alphabet;
     }
 
+    /**
+     * Whether the token is the NUL character
+     */
+    bool
+    is_null(const Token &t) const
+    {
+        return t.type == Character && t.character[0] == '\0';
+    }
     bool is_space(const Token &t) const;
     bool is_alphabetic(const Token &t) const;
 
-- 
2.43.0


From e5f78a846d57e9b80d891de5900351b8253d78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 61/84] fix: SFST conversion: do not lose nodes marked or
 indexed by earlier traversals

---
 .../implementations/ConvertSfstTransducer.cc  | 114 +++++++++---------
 .../implementations/ConvertTransducerFormat.h |   5 -
 2 files changed, 54 insertions(+), 65 deletions(-)

diff --git a/libhfst/src/implementations/ConvertSfstTransducer.cc b/libhfst/src/implementations/ConvertSfstTransducer.cc
index bfe4b58..e053c55 100644
--- a/libhfst/src/implementations/ConvertSfstTransducer.cc
+++ b/libhfst/src/implementations/ConvertSfstTransducer.cc
@@ -35,62 +35,33 @@ namespace hfst { namespace implementations
 
      ----------------------------------------------------------- */
 
-  SFST::VType VMARK = 10000;
-
-  /* Recursively copy all transitions of \a node to \a net.
+  /* Number \a node and the nodes that can be reached from it.
      Used by function sfst_to_hfst_basic_transducer(SFST::Transducer * t).
 
-     @param node  The current node in the SFST transducer
-     @param net   The HfstBasicTransducer that is being created
-     @harmonization_vector A vector that defines how symbol numbers are recoded
+     The visit marks and indices of the nodes are not used: both are shared
+     with other functions and can be left over from an earlier traversal.
+
+     @param node     The current node in the SFST transducer
+     @param numbers  The number of each node
+     @param nodes    The nodes in the order of their numbers
   */
 
-  void ConversionFunctions::sfst_to_hfst_basic_transducer
+  static void number_nodes
   ( SFST::Node *node,
-    HfstBasicTransducer *net,
-    std::vector<unsigned int> &harmonization_vector) {
-    
-    // If node has not been visited before
-    if (not node->was_visited(VMARK)) {
-      SFST::Arcs *arcs=node->arcs();
-      
-      // Count the number of transitions in the current state
-      // and initialize the transition vector of net for maximum efficiency
-      unsigned int number_of_arcs=0;
-      for( SFST::ArcsIter p(arcs); p; p++ ) {
-        number_of_arcs++;
-      }
-      net->initialize_transition_vector(node->index, number_of_arcs);
-      
-      // Go through all transitions and copy them to \a net
-      for( SFST::ArcsIter p(arcs); p; p++ ) {
-        SFST::Arc *arc=p;
-        
-        net->add_transition
-          (node->index,
-           HfstBasicTransition
-           (arc->target_node()->index,
-            harmonization_vector.at(arc->label().lower_char()),
-            harmonization_vector.at(arc->label().upper_char()),
-            0, false), false);
-      }
-      
-      if (node->is_final()) {
-        net->set_final_weight(node->index,0);
-      }
-      
-      // Call this function recursively for all target nodes
-      // of the transitions
-      for( SFST::ArcsIter p(arcs); p; p++ ) {
-        SFST::Arc *arc=p;
-        sfst_to_hfst_basic_transducer
-          (arc->target_node(), net, harmonization_vector);
-      }
+    std::map<SFST::Node*, HfstState> &numbers,
+    std::vector<SFST::Node*> &nodes) {
+
+    if (not numbers.insert
+        (std::make_pair(node, (HfstState)nodes.size())).second)
+      return;
+    nodes.push_back(node);
+    for( SFST::ArcsIter p(node->arcs()); p; p++ ) {
+      SFST::Arc *arc=p;
+      number_nodes(arc->target_node(), numbers, nodes);
     }
   }
 
 
-
   /* Create an HfstBasicTransducer equivalent to an SFST transducer \a t. */
   
   HfstBasicTransducer * ConversionFunctions::sfst_to_hfst_basic_transducer
@@ -120,19 +91,42 @@ namespace hfst { namespace implementations
       = HfstTropicalTransducerTransitionData::
       get_harmonization_vector(symbol_vector);
     
-    // Initialize the number of nodes in the transducer for efficiency
-    std::vector<SFST::Node*> indexing;
-    t->nodeindexing(&indexing);
-    unsigned int number_of_nodes = (unsigned int)indexing.size();
-    net->initialize_state_vector(number_of_nodes);
-    
-    if (t->root_node()->check_visited(VMARK))
-      VMARK++;
-    
-    // Recursively copy the transitions in each node to the basic transducer
-    sfst_to_hfst_basic_transducer
-      (t->root_node(), net, harmonization_vector);
-    
+    // Number the nodes and initialize their number for efficiency
+    std::map<SFST::Node*, HfstState> numbers;
+    std::vector<SFST::Node*> nodes;
+    number_nodes(t->root_node(), numbers, nodes);
+    net->initialize_state_vector((unsigned int)nodes.size());
+
+    // Copy the transitions in each node to the basic transducer
+    for (HfstState number = 0; number < nodes.size(); number++) {
+      SFST::Arcs *arcs=nodes[number]->arcs();
+
+      // Count the number of transitions in the current state
+      // and initialize the transition vector of net for maximum efficiency
+      unsigned int number_of_arcs=0;
+      for( SFST::ArcsIter p(arcs); p; p++ ) {
+        number_of_arcs++;
+      }
+      net->initialize_transition_vector(number, number_of_arcs);
+
+      // Go through all transitions and copy them to \a net
+      for( SFST::ArcsIter p(arcs); p; p++ ) {
+        SFST::Arc *arc=p;
+
+        net->add_transition
+          (number,
+           HfstBasicTransition
+           (numbers[arc->target_node()],
+            harmonization_vector.at(arc->label().lower_char()),
+            harmonization_vector.at(arc->label().upper_char()),
+            0, false), false);
+      }
+
+      if (nodes[number]->is_final()) {
+        net->set_final_weight(number,0);
+      }
+    }
+
     // Copy the alphabet
     SFST::Alphabet::CharMap cm = t->alphabet.get_char_map();
     for (SFST::Alphabet::CharMap::const_iterator it
diff --git a/libhfst/src/implementations/ConvertTransducerFormat.h b/libhfst/src/implementations/ConvertTransducerFormat.h
index 653a1e5..9875298 100644
--- a/libhfst/src/implementations/ConvertTransducerFormat.h
+++ b/libhfst/src/implementations/ConvertTransducerFormat.h
@@ -88,11 +88,6 @@ namespace implementations {
       (const hfst::HfstTransducer &t);
 
 #if HAVE_SFST || HAVE_LEAN_SFST
-  static void sfst_to_hfst_basic_transducer
-    ( SFST::Node *node,
-      HfstBasicTransducer *net,
-      std::vector<unsigned int> &harmonization_vector);
-
   static HfstBasicTransducer * sfst_to_hfst_basic_transducer
     (SFST::Transducer * t);
 
-- 
2.43.0


From 51463e75bdeb30229af18a6d8945f03af6edd9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 62/84] fix: HfstBasicTransducer: remove and substitute all
 matching transitions of a state, and no other

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 119012b..e570066 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2110,6 +2110,7 @@ HfstBasicTransducer::remove_transitions(const HfstSymbolPair &sp)
             if (in_tr == in_match && out_tr == out_match)
             {
                 it.erase(it.begin() + i);
+                i--; // the next transition has moved here
             }
             else
             {
@@ -2575,10 +2576,12 @@ HfstBasicTransducer::substitute(const HfstSymbolPair &sp,
         }
         // (all transitions in a state gone through)
 
-        // Remove the substituted transitions
-        for (auto &old_transition : old_transitions)
+        // Remove the substituted transitions, the last one first
+        // so that the iterators stay valid
+        while (!old_transitions.empty())
         {
-            it.erase(old_transition);
+            it.erase(old_transitions.back());
+            old_transitions.pop_back();
         }
 
         source_state++;
-- 
2.43.0


From 7cf8ef64181af583592873abba7473e7109830a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 63/84] fix: eliminate_flags: keep paths with flags of other
 features, drop paths with a required flag that nothing sets

---
 libhfst/src/HfstTransducer.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 3ef910e..6fdc28a 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -1985,6 +1985,8 @@ get_flag_filter(const HfstTransducer *transducer, const StringSet &flags,
         if ((flag.empty() || FdOperation::get_feature(f) == flag)
             && (op == 'U' || op == 'R' || op == 'D')) // Equal flag?
         {
+            // a required flag fails also when nothing can set it
+            flag_found = (op == 'R');
             for (const auto &flag : flags)
             {
                 int fstatus = is_valid_flag_combination(f, flag);
@@ -2026,6 +2028,16 @@ get_flag_filter(const HfstTransducer *transducer, const StringSet &flags,
 
     if (filter != NULL)
     {
+        // let the filter pass the flags that it does not mention: they are
+        // not matched by unknown or identity symbols once they are unescaped
+        HfstTransducer any(internal_identity, type);
+        for (const auto &f : flags)
+        {
+            any.disjunct(HfstTransducer("_" + f, type));
+        }
+        any.repeat_star();
+        filter->intersect(any);
+
         substitute_escaped_flags(filter); // unescape the flags
         filter->optimize();
     }
-- 
2.43.0


From 1755f55489a0122994cd9f571edf6d6c84ca8524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 64/84] fix: extract_paths: the empty path counts towards the
 number of paths asked for

---
 libhfst/src/implementations/FomaTransducer.cc           | 4 ++--
 libhfst/src/implementations/SfstTransducer.cc           | 6 +++---
 libhfst/src/implementations/TropicalWeightTransducer.cc | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index 811420b..1083c85 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -708,9 +708,9 @@ namespace hfst { namespace implementations {
            filter_fd, spv);
       }
     }
-    // add epsilon path, if needed
+    // add epsilon path, if needed and if the search is to be continued
     for (std::set<int>::const_iterator it = initial_states.begin();
-         it != initial_states.end(); it++)
+         res && it != initial_states.end(); it++)
       {
         bool final_initial = false;
         for(int i=0; ((t->states)+i)->state_no != -1; i++)
diff --git a/libhfst/src/implementations/SfstTransducer.cc b/libhfst/src/implementations/SfstTransducer.cc
index 8e113f4..949d132 100644
--- a/libhfst/src/implementations/SfstTransducer.cc
+++ b/libhfst/src/implementations/SfstTransducer.cc
@@ -773,13 +773,13 @@ namespace hfst { namespace implementations {
       (1, hfst::FdState<Character>(*fd));
     
     StringPairVector spv;
-    hfst::implementations::extract_paths
+    bool res = hfst::implementations::extract_paths
       (t, t->root_node(), all_visitations, path_visitations,
        callback, cycles, fd_state_stack, filter_fd,
        spv);
 
-    // add epsilon path, if needed
-    if (t->root_node() && t->root_node()->is_final()) {
+    // add epsilon path, if needed and if the search is to be continued
+    if (res && t->root_node() && t->root_node()->is_final()) {
       StringPairVector empty_spv;
       HfstTwoLevelPath epsilon_path(0, empty_spv);
       callback(epsilon_path, true /* final*/);
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 675e75c..4e11f50 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2973,12 +2973,12 @@ TropicalWeightTransducer::extract_paths(StdVectorFst *t,
                              1, hfst::FdState<int64>(*fd));
 
     StringPairVector spv;
-    hfst::implementations::extract_paths(
+    bool res = hfst::implementations::extract_paths(
         t, t->Start(), all_visitations, path_visitations, 0.0f, callback,
         cycles, fd_state_stack, filter_fd, spv);
 
-    // add epsilon path, if needed
-    if (t->Start() != -1 && t->Final(t->Start()) != TropicalWeight::Zero())
+    // add epsilon path, if needed and if the search is to be continued
+    if (res && t->Start() != -1 && t->Final(t->Start()) != TropicalWeight::Zero())
     {
         StringPairVector empty_spv;
         HfstTwoLevelPath epsilon_path(t->Final(t->Start()).Value(), empty_spv);
-- 
2.43.0


From 735679ff997fdc5d6dd2b4536a5a1d1775ef2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 65/84] fix: minimize: negative weights and an initial epsilon
 arc made by weight pushing

---
 .../implementations/TropicalWeightTransducer.cc  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 4e11f50..d293f0a 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -254,6 +254,22 @@ TropicalWeightTransducer::minimize(StdVectorFst *t)
     if (w < 0)
     {
         add_to_weights(det, w);
+        // Minimize pushes weights and can add an initial epsilon arc for what
+        // is left of them: that arc did not take part in the shift above
+        if (det->Start() != fst::kNoStateId)
+        {
+            for (fst::MutableArcIterator<StdVectorFst> aiter(det,
+                                                             det->Start());
+                 !aiter.Done(); aiter.Next())
+            {
+                StdArc arc = aiter.Value();
+                if (arc.ilabel == 0 && arc.olabel == 0)
+                {
+                    arc.weight = arc.weight.Value() - w;
+                    aiter.SetValue(arc);
+                }
+            }
+        }
     }
 
     return det;
-- 
2.43.0


From e8437856b24439ee9b60a52d91e45550be6dd214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 66/84] fix: disjunct with a path: tropical transducers without
 states, and weights of paths that are already there

---
 .../src/implementations/TropicalWeightTransducer.cc  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index d293f0a..35acd6a 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2595,6 +2595,10 @@ TropicalWeightTransducer::disjunct(StdVectorFst *t,
     SymbolTable *st = t->InputSymbols()->Copy();
     assert(st != NULL);
 
+    if (t->Start() == fst::kNoStateId)
+    {
+        t->SetStart(t->AddState());
+    }
     StateId s = t->Start();
 
     for (StringPairVector::const_iterator it = spv.begin(); it != spv.end();
@@ -2623,7 +2627,7 @@ TropicalWeightTransducer::disjunct(StdVectorFst *t,
         }
     }
 
-    t->SetFinal(s, 0);
+    t->SetFinal(s, Plus(t->Final(s), TropicalWeight::One()));
 
     t->SetInputSymbols(st);
     return t;
@@ -2633,6 +2637,10 @@ StdVectorFst *
 TropicalWeightTransducer::disjunct(StdVectorFst *t,
                                    const NumberPairVector &npv)
 {
+    if (t->Start() == fst::kNoStateId)
+    {
+        t->SetStart(t->AddState());
+    }
     StateId s = t->Start();
 
     for (NumberPairVector::const_iterator it = npv.begin(); it != npv.end();
@@ -2661,7 +2669,7 @@ TropicalWeightTransducer::disjunct(StdVectorFst *t,
         }
     }
 
-    t->SetFinal(s, 0);
+    t->SetFinal(s, Plus(t->Final(s), TropicalWeight::One()));
     return t;
 }
 
-- 
2.43.0


From 1952882e4a466dbd0bc21618a4c52c0a410cea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:54 +0000
Subject: [PATCH 67/84] fix: list a range of symbols in xfst: the lexer wrote
 through uninitialised pointers and the last symbol was left out

---
 libhfst/src/parsers/XfstCompiler.cc | 16 +++++++---------
 libhfst/src/parsers/xfst-lexer.ll   | 18 +++++-------------
 2 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 8d1aaec..60d1519 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -1320,22 +1320,20 @@ XfstCompiler::define_alias(const char *name, const char *commands)
 XfstCompiler &
 XfstCompiler::define_list(const char *name, const char *start, const char *end)
 {
-    if ((strlen(start) > 1) || (strlen(end) > 1))
+    if ((strlen(start) != 1) || (strlen(end) != 1))
     {
         error() << "unsupported unicode range " << std::string(start) << "-"
                 << std::string(end) << std::endl;
         flush(&error());
+        MAYBE_QUIT;
+        PROMPT_AND_RETURN_THIS;
     }
-    std::set<string> l;
-    for (char c = *start; c < *end; c++)
+    std::string values;
+    for (int c = *start; c <= *end; c++)
     {
-        char *s = static_cast<char *>(malloc(sizeof(char) * 2));
-        *s = c;
-        *(s + 1) = '\0';
-        l.insert(s);
+        values += std::string(1, static_cast<char>(c)) + " ";
     }
-    lists_[name] = l;
-    return *this;
+    return this->define_list(name, values.c_str());
 }
 
 XfstCompiler &
diff --git a/libhfst/src/parsers/xfst-lexer.ll b/libhfst/src/parsers/xfst-lexer.ll
index 68afa4f..c3225b4 100644
--- a/libhfst/src/parsers/xfst-lexer.ll
+++ b/libhfst/src/parsers/xfst-lexer.ll
@@ -799,23 +799,15 @@ LWSP [\t ]*
     char* range = hfst::xfst::strstrip(hxfsttext);
     char* s = range;
     hxfstlval.list = static_cast<char**>(malloc(sizeof(char*)*2));
-    char* p = hxfstlval.list[0];
-    while (*s != '-')
-    {
-        *p = *s;
-        p++;
-        s++;
-    }
-    *p = '\0';
-    p = hxfstlval.list[1];
+    // a range may begin with a dash itself
     s++;
-    while (*s != '\0')
+    while (*s != '-')
     {
-        *p = *s;
-        p++;
         s++;
     }
-    *p = '\0';
+    *s = '\0';
+    hxfstlval.list[0] = strdup(range);
+    hxfstlval.list[1] = strdup(s + 1);
     free(range);
     return RANGE;
 }
-- 
2.43.0


From f21383e69057b881e156c8f2e4f27b269bd2193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:54 +0000
Subject: [PATCH 68/84] fix: print sigma in xfst did not show that an unknown
 symbol is used on the lower side

---
 libhfst/src/parsers/XfstCompiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 60d1519..30ef498 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -3743,7 +3743,7 @@ is_unknown_or_identity_used_in_transducer(HfstTransducer *t, bool &unknown,
         for (const auto &tr_it : it)
         {
             std::string istr = tr_it.get_input_symbol();
-            std::string ostr = tr_it.get_input_symbol();
+            std::string ostr = tr_it.get_output_symbol();
             if (istr == hfst::internal_unknown
                 || ostr == hfst::internal_unknown)
                 unknown = true;
-- 
2.43.0


From 053a934cad4770193c1b712950b980772897fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:54 +0000
Subject: [PATCH 69/84] fix: test upper-universal and lower-universal in xfst
 compared with a single symbol instead of all strings

---
 libhfst/src/parsers/XfstCompiler.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 30ef498..c1be33b 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -2459,14 +2459,14 @@ XfstCompiler::test_uni(Level level, bool assertion)
     }
 
     HfstTransducer tmp(*temp);
-    tmp.input_project();
-    HfstTransducer id(hfst::internal_identity, tmp.get_type());
+    HfstTransducer universal(hfst::internal_identity, tmp.get_type());
+    universal.repeat_star();
     bool value = false;
 
     if (level == UPPER_LEVEL)
-        value = id.compare(tmp, false);
+        value = universal.compare(tmp.input_project());
     else if (level == LOWER_LEVEL)
-        value = !id.compare(tmp, false);
+        value = universal.compare(tmp.output_project());
     else
     {
         error()
-- 
2.43.0


From 15c259b31a48ab4cc4d9c8d5c09bc329776fa857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 70/84] fix: print name in xfst gave the name of a network that
 has been deleted to a new one

---
 libhfst/src/parsers/XfstCompiler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index c1be33b..1be754d 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -3567,7 +3567,8 @@ XfstCompiler::print_name(std::ostream *oss_)
 
     for (const auto &it : names_)
     {
-        if (tmp == it.second)
+        // the address may be that of a network that has been deleted since
+        if (tmp == it.second && tmp->get_name() == it.first)
         {
             *oss << "Name " << it.first << std::endl;
             flush(oss);
-- 
2.43.0


From 6be05de2b90276a527335f8b48c91c8070d19234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 71/84] fix: print shortest-string in xfst printed the string
 that has the lowest weight, whatever its length

---
 libhfst/src/parsers/XfstCompiler.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 1be754d..642b412 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -3125,11 +3125,32 @@ XfstCompiler::print_list(std::ostream *oss_)
     PROMPT_AND_RETURN_THIS;
 }
 
+static float
+unit_weight(float)
+{
+    return 1;
+}
+
+static float
+zero_weight(float)
+{
+    return 0;
+}
+
 XfstCompiler &
 XfstCompiler::shortest_string(const hfst::HfstTransducer *transducer,
                               hfst::HfstTwoLevelPaths &paths)
 {
-    transducer->extract_shortest_paths(paths);
+    // extract_shortest_paths finds the path that has the lowest weight: let the
+    // weight be the length first and find the weight of that path then
+    HfstTransducer original(*transducer);
+    original.convert(hfst::TROPICAL_OPENFST_TYPE);
+    HfstTransducer shortest(original);
+    shortest.remove_epsilons();
+    shortest.set_final_weights(0).transform_weights(&unit_weight).n_best(1);
+    shortest.set_final_weights(0).transform_weights(&zero_weight);
+    original.intersect(shortest);
+    original.extract_shortest_paths(paths);
     return *this;
 }
 
-- 
2.43.0


From e09d46030e77d4c5064d451f22b9d02e05e27839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 72/84] fix: xfst: reading a regular expression or the words to
 apply from a file took the redirection for text

---
 libhfst/src/parsers/xfst-lexer.ll | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libhfst/src/parsers/xfst-lexer.ll b/libhfst/src/parsers/xfst-lexer.ll
index c3225b4..4a449fa 100644
--- a/libhfst/src/parsers/xfst-lexer.ll
+++ b/libhfst/src/parsers/xfst-lexer.ll
@@ -128,6 +128,12 @@ LWSP [\t ]*
     }
 }
 
+^{LWSP}("apply up"|"up"){LWSP}"<"{WSP}+{NAMETOKEN}{LWSP}(""|"\r")$ {
+    // the words come from a file: let the redirection be read next
+    yyless((int)(strchr(hxfsttext, '<') - hxfsttext));
+    return APPLY_UP;
+}
+
 ^{LWSP}("apply up"){WSP}.* {
     hxfstlval.text = hfst::xfst::strstrip(hxfsttext + strlen("apply up "));
     return APPLY_UP_SINGLE;
@@ -152,6 +158,12 @@ LWSP [\t ]*
     }
 }
 
+^{LWSP}("apply down"|"down"){LWSP}"<"{WSP}+{NAMETOKEN}{LWSP}(""|"\r")$ {
+    // the words come from a file: let the redirection be read next
+    yyless((int)(strchr(hxfsttext, '<') - hxfsttext));
+    return APPLY_DOWN;
+}
+
 ^{LWSP}("apply down"){WSP}.* {
     hxfstlval.text = hfst::xfst::strstrip(hxfsttext + strlen("apply down "));
     return APPLY_DOWN_SINGLE;
@@ -507,6 +519,11 @@ LWSP [\t ]*
 ^{LWSP}("read prolog"|"rpl") {
     return READ_PROLOG;
 }
+^{LWSP}("regex"|"read regex"){LWSP}"<"{WSP}+{NAMETOKEN}{LWSP}(""|"\r")$ {
+    // the expression comes from a file: let the redirection be read next
+    yyless((int)(strchr(hxfsttext, '<') - hxfsttext));
+    return READ_REGEX;
+}
 ^{LWSP}("regex"|"read regex") {
     BEGIN(REGEX_STATE);
     return READ_REGEX;
-- 
2.43.0


From 2649b31eed66263e619387a3b685dd6bef43b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 73/84] fix: assert test null in xfst asserted the opposite

---
 libhfst/src/parsers/xfst-parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/xfst-parser.yy b/libhfst/src/parsers/xfst-parser.yy
index 8d8446d..ae3a5ff 100644
--- a/libhfst/src/parsers/xfst-parser.yy
+++ b/libhfst/src/parsers/xfst-parser.yy
@@ -438,7 +438,7 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             hfst::xfst::xfst_->test_nonnull(true); CHECK;
        }
        | ASSERT TEST_NULL END_COMMAND {
-            hfst::xfst::xfst_->test_null(true); CHECK;
+            hfst::xfst::xfst_->test_null(false, true); CHECK;
        }
        | ASSERT TEST_OVERLAP END_COMMAND {
             hfst::xfst::xfst_->test_overlap(true); CHECK;
-- 
2.43.0


From 139e79e2fe7220aceceba8b20d4776501e8b3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 74/84] fix: negate net in xfst ended the session on an
 optimized-lookup network

---
 libhfst/src/parsers/XfstCompiler.cc | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 642b412..bee74af 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4723,14 +4723,7 @@ XfstCompiler::name_net(const char *s)
 XfstCompiler &
 XfstCompiler::negate_net()
 {
-    if (stack_.size() < 1)
-    {
-        EMPTY_STACK;
-        xfst_lesser_fail();
-        return *this;
-    }
-
-    HfstTransducer *t = stack_.top();
+    GET_TOP(t);
 
     try
     {
-- 
2.43.0


From 5e1950f8dc119c9479a9b579e083e54b7638fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 75/84] fix: complete net in xfst ended the session when the
 network is not an automaton

---
 libhfst/src/parsers/XfstCompiler.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index bee74af..54f32fe 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4341,7 +4341,19 @@ XfstCompiler::complete_net()
     GET_TOP(topmost);
 
     HfstBasicTransducer fsm(*topmost);
-    fsm.complete();
+    try
+    {
+        fsm.complete();
+    }
+    catch (const TransducersAreNotAutomataException &e)
+    {
+        (void)e;
+        error() << "Error: complete net is defined only for automata."
+                << std::endl;
+        flush(&error());
+        xfst_lesser_fail();
+        PROMPT_AND_RETURN_THIS;
+    }
     HfstTransducer *result = new HfstTransducer(fsm, topmost->get_type());
     stack_.pop();
     delete topmost;
-- 
2.43.0


From 3d42ddc46f1e8c1275a67b97cde5cb10ade5942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 76/84] fix: maximum-weight in xfst had no effect on
 optimized-lookup networks

---
 libhfst/src/parsers/XfstCompiler.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 54f32fe..a31ae0f 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -839,6 +839,19 @@ XfstCompiler::lookup(char *line, const HfstTransducer *t, size_t cutoff)
         paths = t->lookup(std::string(token), cutoff);
     }
 
+    if (variables_["maximum-weight"] != "OFF")
+    {
+        float max_weight = string_to_float(variables_["maximum-weight"]);
+        HfstOneLevelPaths::iterator it = paths->begin();
+        while (it != paths->end())
+        {
+            if (it->first > max_weight)
+                it = paths->erase(it);
+            else
+                ++it;
+        }
+    }
+
     bool printed = this->print_paths(*paths);
     if (!printed)
     {
-- 
2.43.0


From 8ee7b55add907a282c0d99824df8e25108bdc225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 77/84] fix: set in xfst cut decimal values (maximum-weight
 0.5) to integers

---
 libhfst/src/parsers/xfst-parser.yy | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/parsers/xfst-parser.yy b/libhfst/src/parsers/xfst-parser.yy
index ae3a5ff..19537b2 100644
--- a/libhfst/src/parsers/xfst-parser.yy
+++ b/libhfst/src/parsers/xfst-parser.yy
@@ -354,11 +354,8 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
        }
        // vars
        | SET NAMETOKEN NAMETOKEN END_COMMAND {
-            int i = hfst::xfst::nametoken_to_number($3);
-            if (i != -1)
-              hfst::xfst::xfst_->set($2, i);
-            else
-              hfst::xfst::xfst_->set($2, $3);
+            // variables are texts: the value can be a decimal number
+            hfst::xfst::xfst_->set($2, $3);
             free($2);
             free($3); CHECK;
        }
-- 
2.43.0


From 75f82bcee498323dde200f592433519f60343080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 78/84] fix: read text and read spaced-text in xfst ended the
 session on an unescaped colon

---
 libhfst/src/parsers/XfstCompiler.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index a31ae0f..bfc0076 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4290,12 +4290,26 @@ XfstCompiler::read_text_or_spaced(const char *filename, bool spaces)
     StringVector mcs; // no multichar symbols
     HfstStrings2FstTokenizer tok(mcs, hfst::internal_epsilon);
     char *line;
+    bool syntax_error = false;
 
     while ((line = xfst_getline(infile)) != NULL)
     {
         line = remove_newline(line);
-        StringPairVector spv
-            = tok.tokenize_pair_string(std::string(line), spaces);
+        StringPairVector spv;
+        try
+        {
+            spv = tok.tokenize_pair_string(std::string(line), spaces);
+        }
+        catch (const UnescapedColsFound &e)
+        {
+            (void)e;
+            error() << "Unescaped colon in a symbol: '" << line << "'"
+                    << std::endl;
+            flush(&error());
+            free(line);
+            syntax_error = true;
+            break;
+        }
         HfstTransducer line_tr(spv, format_);
         tmp->disjunct(line_tr);
         free(line);
@@ -4316,6 +4330,12 @@ XfstCompiler::read_text_or_spaced(const char *filename, bool spaces)
         delete tmp;
         PROMPT_AND_RETURN_THIS;
     }
+    if (syntax_error)
+    {
+        xfst_fail();
+        delete tmp;
+        PROMPT_AND_RETURN_THIS;
+    }
 
     tmp->minimize(); // a trie should be easily minimizable
     stack_.push(tmp);
-- 
2.43.0


From d20051c516b97c4bb490e326e6f9b5df5a668962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 79/84] fix: hfst-lookup and hfst-flookup ended at the first
 line that is not valid UTF-8

---
 tools/src/hfst-flookup.cc | 21 ++++++++++++++++++---
 tools/src/hfst-lookup.cc  | 21 ++++++++++++++++++---
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index ec07a21..713f50a 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -1760,8 +1760,23 @@ process_stream(HfstInputStream &inputstream, FILE *outstream)
         bool infinite = false;
         HfstOneLevelPaths *kvs;
 
-        HfstOneLevelPath *kv = line_to_lookup_path(
-            &line, input_tokenizer, &markup, &unknown, only_optimized_lookup);
+        HfstOneLevelPath *kv;
+        try
+        {
+            kv = line_to_lookup_path(&line, input_tokenizer, &markup, &unknown,
+                                     only_optimized_lookup);
+        }
+        catch (const IncorrectUtf8CodingException &e)
+        {
+            (void)e;
+            hfst_warning(0, 0, "%s: line %zu is not valid utf-8",
+                         lookup_file_name ? lookup_file_name : "<stdin>", linen);
+            // there is no such word
+            kv = new HfstOneLevelPath;
+            kv->first = 0;
+            kv->second.push_back(std::string(line));
+            unknown = true;
+        }
 
         if (verbose)
         {
@@ -1782,7 +1797,7 @@ process_stream(HfstInputStream &inputstream, FILE *outstream)
             kvs = perform_lookups(*kv, cascade_mut, unknown, &infinite);
         }
 
-        if (!print_pairs)
+        if (!print_pairs || unknown)
         {
             // printing was already done in function lookup_fd
             print_lookups(*kvs, *kv, markup, unknown, infinite, outstream);
diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index 64cbf8d..d45707b 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -2032,8 +2032,23 @@ process_stream(HfstInputStream &inputstream, FILE *outstream)
         bool infinite = false;
         HfstOneLevelPaths *kvs;
 
-        HfstOneLevelPath *kv = line_to_lookup_path(
-            &line, input_tokenizer, &markup, &unknown, only_optimized_lookup);
+        HfstOneLevelPath *kv;
+        try
+        {
+            kv = line_to_lookup_path(&line, input_tokenizer, &markup, &unknown,
+                                     only_optimized_lookup);
+        }
+        catch (const IncorrectUtf8CodingException &e)
+        {
+            (void)e;
+            hfst_warning(0, 0, "%s: line %zu is not valid utf-8",
+                         lookup_file_name ? lookup_file_name : "<stdin>", linen);
+            // there is no such word
+            kv = new HfstOneLevelPath;
+            kv->first = 0;
+            kv->second.push_back(std::string(line));
+            unknown = true;
+        }
 
         if (verbose)
         {
@@ -2054,7 +2069,7 @@ process_stream(HfstInputStream &inputstream, FILE *outstream)
             kvs = perform_lookups(*kv, cascade_mut, unknown, &infinite);
         }
 
-        if (!print_pairs)
+        if (!print_pairs || unknown)
         {
             // printing was already done in function lookup_fd
             print_lookups(*kvs, *kv, markup, unknown, infinite, outstream);
-- 
2.43.0


From bca0a811c21f6f1d78a0e57e8d3973bde581e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 80/84] fix: a quoted symbol that is not valid UTF-8 in a
 regular expression ended the program

---
 libhfst/src/parsers/xre_lex.ll | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/xre_lex.ll b/libhfst/src/parsers/xre_lex.ll
index ad6d051..71bac25 100644
--- a/libhfst/src/parsers/xre_lex.ll
+++ b/libhfst/src/parsers/xre_lex.ll
@@ -233,7 +233,15 @@ BRACED      [{]([^}]|[\300-\337].|[\340-\357]..|[\360-\367]...)+[}]
 
 "\""[^""]+"\"" {
     unsigned int length = 0;
-    yylval->label = hfst::xre::parse_quoted(yytext, length);
+    try
+    {
+        yylval->label = hfst::xre::parse_quoted(yytext, length);
+    }
+    catch (const IncorrectUtf8CodingException & e)
+    {
+        (void)e;
+        return LEXER_ERROR;
+    }
     CR;
     if (length < 2)
       return QUOTED_LITERAL;
-- 
2.43.0


From bfd44840fd4d9d38eff86e89ee2aedd650227454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 81/84] fix: apply and read text in xfst ended the session on
 text that is not valid UTF-8

---
 libhfst/src/parsers/XfstCompiler.cc | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index bfc0076..a20720d 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -761,8 +761,22 @@ XfstCompiler::lookup(char *line, HfstBasicTransducer *t)
         tok.add_multichar_symbol(it);
     }
     // XXX: seting for splitc-chars ?
-    StringVector lookup_path
-        = tok.tokenize_one_level(std::string(token), false);
+    StringVector lookup_path;
+    try
+    {
+        lookup_path = tok.tokenize_one_level(std::string(token), false);
+    }
+    catch (const IncorrectUtf8CodingException &e)
+    {
+        (void)e;
+        error() << "Illegal 8-bit sequence (cannot form valid UTF-8)"
+                << std::endl;
+        flush(&error());
+        output() << "???" << std::endl;
+        flush(&output());
+        free(token);
+        return *this;
+    }
     free(token);
 
     size_t cutoff = -1;
@@ -4310,6 +4324,16 @@ XfstCompiler::read_text_or_spaced(const char *filename, bool spaces)
             syntax_error = true;
             break;
         }
+        catch (const IncorrectUtf8CodingException &e)
+        {
+            (void)e;
+            error() << "Illegal 8-bit sequence (cannot form valid UTF-8)"
+                    << std::endl;
+            flush(&error());
+            free(line);
+            syntax_error = true;
+            break;
+        }
         HfstTransducer line_tr(spv, format_);
         tmp->disjunct(line_tr);
         free(line);
-- 
2.43.0


From d47cd2fe3bf121830897b9ac926b7cfdce370dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:05 +0000
Subject: [PATCH 82/84] fix: tables indexed by a byte had no entry for the byte
 0xFF

---
 libhfst/src/HfstTokenizer.cc      | 4 ++--
 tools/src/hfst-optimized-lookup.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/HfstTokenizer.cc b/libhfst/src/HfstTokenizer.cc
index c80e07b..43d6eea 100644
--- a/libhfst/src/HfstTokenizer.cc
+++ b/libhfst/src/HfstTokenizer.cc
@@ -62,8 +62,8 @@ MultiCharSymbolTrie::get_symbol_rest_trie(const char *p) const
 }
 
 MultiCharSymbolTrie::MultiCharSymbolTrie(void)
-    : symbol_rests(UCHAR_MAX, (MultiCharSymbolTrie *)NULL),
-      is_leaf(UCHAR_MAX, false)
+    : symbol_rests(UCHAR_MAX + 1, (MultiCharSymbolTrie *)NULL),
+      is_leaf(UCHAR_MAX + 1, false)
 {
 }
 
diff --git a/tools/src/hfst-optimized-lookup.h b/tools/src/hfst-optimized-lookup.h
index 5ba1c63..5cb7c19 100644
--- a/tools/src/hfst-optimized-lookup.h
+++ b/tools/src/hfst-optimized-lookup.h
@@ -300,8 +300,8 @@ private:
 
 public:
     LetterTrie(void):
-        letters(UCHAR_MAX, (LetterTrie*) NULL),
-        symbols(UCHAR_MAX,NO_SYMBOL_NUMBER)
+        letters(UCHAR_MAX+1, (LetterTrie*) NULL),
+        symbols(UCHAR_MAX+1,NO_SYMBOL_NUMBER)
         {}
 
     void add_string(const char * p,SymbolNumber symbol_key);
@@ -323,7 +323,7 @@ private:
 public:
     Encoder(KeyTable * kt, SymbolNumber input_symbol_count):
         number_of_input_symbols(input_symbol_count),
-        ascii_symbols(UCHAR_MAX,NO_SYMBOL_NUMBER)
+        ascii_symbols(UCHAR_MAX+1,NO_SYMBOL_NUMBER)
         {
             read_input_symbols(kt);
         }
-- 
2.43.0


From f006111f890f79f454537f577706c1c4358d0312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:05 +0000
Subject: [PATCH 83/84] fix: lookup in optimized-lookup format read past the
 end of text that is not valid UTF-8

---
 .../src/implementations/optimized-lookup/ospell.cc  | 13 ++++++++++++-
 .../implementations/optimized-lookup/transducer.cc  |  2 +-
 .../implementations/optimized-lookup/transducer.h   |  3 +++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/ospell.cc b/libhfst/src/implementations/optimized-lookup/ospell.cc
index e81bb2f..a87f66e 100644
--- a/libhfst/src/implementations/optimized-lookup/ospell.cc
+++ b/libhfst/src/implementations/optimized-lookup/ospell.cc
@@ -27,6 +27,17 @@ int nByte_utf8(unsigned char c)
     }
 }
 
+int nByte_utf8(const char * s)
+{
+    int n = nByte_utf8(static_cast<unsigned char>(*s));
+    for (int i = 1; i < n; ++i) {
+        if ((static_cast<unsigned char>(s[i]) & (128 + 64)) != 128) {
+            return 0;
+        }
+    }
+    return n;
+}
+
 bool InputString::initialize(const Encoder & encoder,
                              char * input,
                              SymbolNumber other)
@@ -47,7 +58,7 @@ bool InputString::initialize(const Encoder & encoder,
         k = const_cast<Encoder&>(encoder).find_key(inpointer);
         
         if (k == NO_SYMBOL_NUMBER) { // no tokenization from alphabet
-            int n = nByte_utf8(static_cast<unsigned char>(*oldpointer));
+            int n = nByte_utf8(oldpointer);
             if (n == 0) {
                 return false; // can't parse utf-8 character, admit failure
             } else {
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 37bdb6d..a8bc725 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -322,7 +322,7 @@ bool Transducer::initialize_input(const char * input)
         if (k == NO_SYMBOL_NUMBER) {
             // Add what we assume to be an unknown utf-8 symbol to the alphabet
             *input_str_ptr = original_input_loc;
-            int bytes_to_tokenize = nByte_utf8(**input_str_ptr);
+            int bytes_to_tokenize = nByte_utf8(*input_str_ptr);
             if (bytes_to_tokenize == 0) {
                 return false; // tokenization failed
             }
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.h b/libhfst/src/implementations/optimized-lookup/transducer.h
index 11826d1..3a41500 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.h
+++ b/libhfst/src/implementations/optimized-lookup/transducer.h
@@ -1278,6 +1278,9 @@ public:
 typedef std::deque<TreeNode> TreeNodeQueue;
 
 int nByte_utf8(unsigned char c);
+// the same for the character at the beginning of a NUL-terminated string,
+// 0 if the bytes that should follow are not there
+int nByte_utf8(const char * s);
 
 class InputString
 {
-- 
2.43.0


From 854bc64b1abf9be01d328b9ec1fa3b8234c820e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 84/84] fix: text that is not valid UTF-8 changed how
 hfst-pmatch and hfst-tokenize read later lines

---
 .../optimized-lookup/pmatch.cc                | 68 ++++++++++++++-----
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.cc b/libhfst/src/implementations/optimized-lookup/pmatch.cc
index 1bafa21..3a9fe69 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.cc
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.cc
@@ -12,6 +12,7 @@
 
 #include <unicode/ubrk.h>
 #include <unicode/ustring.h>
+#include <unicode/utf8.h>
 
 using hfst::HfstTransducer;
 
@@ -20,14 +21,32 @@ namespace hfst_ol
 int
 nByte_grapheme(const char *u8)
 {
+    // only look at the text up to the first byte that is not valid UTF-8
+    int32_t valid = 0;
+    while (u8[valid] != '\0')
+    {
+        int32_t next = valid;
+        UChar32 c;
+        U8_NEXT(u8, next, -1, c);
+        if (c < 0)
+        {
+            break;
+        }
+        valid = next;
+    }
+    if (valid == 0)
+    {
+        return 0;
+    }
     UErrorCode status = U_ZERO_ERROR;
-    UChar *ICUdata = (UChar *)malloc(sizeof(UChar) * (strlen(u8) + 1));
+    std::vector<UChar> ICUdata(valid + 1);
     int32_t length = 0;
-    ICUdata = u_strFromUTF8(ICUdata, strlen(u8) + 1, &length, u8, -1, &status);
+    u_strFromUTF8(&ICUdata[0], valid + 1, &length, u8, valid, &status);
     if (U_FAILURE(status))
     {
         fprintf(stderr, "ICU error converting UTF-8 %s to UChars: %s\n", u8,
                 u_errorName(status));
+        return 0;
     }
     status = U_ZERO_ERROR;
     UBreakIterator *graphemes;
@@ -36,34 +55,33 @@ nByte_grapheme(const char *u8)
     {
         fprintf(stderr, "ICU error trying to open grapheme segmenter: %s\n",
                 u_errorName(status));
+        return 0;
     }
     status = U_ZERO_ERROR;
-    ubrk_setText(graphemes, ICUdata, length, &status);
+    ubrk_setText(graphemes, &ICUdata[0], length, &status);
     if (U_FAILURE(status))
     {
         fprintf(stderr, "ICU error trying to get graphemes from %s: %s\n", u8,
                 u_errorName(status));
     }
-    status = U_ZERO_ERROR;
     int32_t begin = ubrk_first(graphemes);
     int32_t end = ubrk_next(graphemes);
-    if (begin == end)
+    ubrk_close(graphemes);
+    if (begin == end || end == UBRK_DONE)
     {
         return 0;
     }
-    if (end == UBRK_DONE)
-    {
-        return 0;
-    }
-    char *grapheme = (char *)malloc(sizeof(char) * (end - begin) * 4 + 1);
-    grapheme = u_strToUTF8(grapheme, (end - begin) * 4 + 1, &length,
-                           &ICUdata[begin], end - begin, &status);
+    status = U_ZERO_ERROR;
+    std::vector<char> grapheme((end - begin) * 4 + 1);
+    u_strToUTF8(&grapheme[0], (end - begin) * 4 + 1, &length, &ICUdata[begin],
+                end - begin, &status);
     if (U_FAILURE(status))
     {
         fprintf(stderr, "ICU error getting UTF-8 from grpaheme: %s\n",
                 u_errorName(status));
+        return 0;
     }
-    return (strlen(grapheme)); // strlen is number of bytes
+    return length; // number of bytes
 }
 
 PmatchAlphabet::PmatchAlphabet(std::istream &inputstream,
@@ -1916,7 +1934,8 @@ PmatchContainer::initialize_input(const char *input_s)
             // we want to go back to be in position to add one utf-8 char
             *input_str_ptr = original_input_loc;
             int bytes_to_tokenize = nByte_grapheme(*input_str_ptr);
-            if (bytes_to_tokenize == 0)
+            bool valid_utf8 = (bytes_to_tokenize != 0);
+            if (!valid_utf8)
             {
                 // if utf-8 tokenization fails too, just grab a byte
                 bytes_to_tokenize = 1;
@@ -1926,10 +1945,23 @@ PmatchContainer::initialize_input(const char *input_s)
             memcpy(new_symbol, *input_str_ptr, bytes_to_tokenize);
             new_symbol[bytes_to_tokenize] = '\0';
             (*input_str_ptr) += bytes_to_tokenize;
-            alphabet.add_symbol(new_symbol);
-            encoder->read_input_symbol(new_symbol, symbol_count);
-            k = symbol_count;
-            ++symbol_count;
+            if (!valid_utf8)
+            {
+                // (a lone byte must not be found at the beginning of
+                // a character in later input)
+                k = alphabet.symbol_from_string(new_symbol);
+            }
+            if (k == NO_SYMBOL_NUMBER)
+            {
+                alphabet.add_symbol(new_symbol);
+                if (valid_utf8)
+                {
+                    encoder->read_input_symbol(new_symbol, symbol_count);
+                }
+                k = symbol_count;
+                ++symbol_count;
+            }
+            free(new_symbol);
         }
         input.push_back(k);
     }
-- 
2.43.0

