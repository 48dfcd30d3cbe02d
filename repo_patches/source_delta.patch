From b185eed12d97a1386acb933dd51602cad5d161b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 01/44] fix: assigning a new regex to a pattern starts from a
 cleared pattern

The list of sub-patterns, their reachability, the tree and DFA allocators and
the output file options of the previous regex were kept, the tree root even
pointing to deleted nodes, when a pattern was assigned again.
---
 include/reflex/pattern.h | 7 +++++++
 lib/pattern.cpp          | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index d9e4597..140d25e 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -164,6 +164,10 @@ class Pattern {
   void clear()
   {
     rex_.clear();
+    end_.clear();
+    acc_.clear();
+    tfa_.clear();
+    dfa_.clear();
     if (nop_ > 0 && opc_ != NULL)
       delete[] opc_;
     opc_ = NULL;
@@ -507,6 +511,8 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      tree = NULL;
+      next = ALLOC;
     }
     /// return the root of the tree.
     Node *root()
@@ -586,6 +592,7 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      next = ALLOC;
     }
     /// new DFA state with optional tree DFA node.
     State *state(Tree::Node *node)
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 3d59bc3..b149809 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -230,6 +230,9 @@ void Pattern::init_options(const char *options)
   opt_.w = false;
   opt_.x = false;
   opt_.e = '\\';
+  opt_.f.clear();
+  opt_.n.clear();
+  opt_.z.clear();
   if (options != NULL)
   {
     for (const char *s = options; *s != '\0'; ++s)
-- 
2.43.0


From 25b480b568b9f32cfddb71da21d78d8d27962bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 02/44] fix: copying a pattern copies its prediction tables and
 static opcode table

The copy constructor released uninitialised pointers, and the copy lacked
len_, min_, one_, pre_, bit_, pmh_, pma_ and a static opcode table so that
searching with it used garbage or the tables of the pattern it replaced.  An
unset pattern is initialised and self-assignment has no effect.
---
 include/reflex/pattern.h | 29 +++++++++++++++++++++++++++--
 lib/pattern.cpp          |  6 ++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index 140d25e..8814fc3 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -82,10 +82,21 @@ class Pattern {
   /// Construct an unset pattern.
   Pattern()
     :
+      vno_(0),
+      eno_(0),
       opc_(NULL),
       nop_(0),
-      fsm_(NULL)
-  { }
+      fsm_(NULL),
+      len_(0),
+      min_(0),
+      pms_(0),
+      vms_(0),
+      ems_(0),
+      wms_(0),
+      one_(false)
+  {
+    init_options(NULL);
+  }
   /// Construct a pattern object given a regex string.
   explicit Pattern(
       const char *regex,
@@ -152,6 +163,10 @@ class Pattern {
   }
   /// Copy constructor.
   Pattern(const Pattern& pattern) ///< pattern to copy
+    :
+      opc_(NULL),
+      nop_(0),
+      fsm_(NULL)
   {
     operator=(pattern);
   }
@@ -228,6 +243,8 @@ class Pattern {
   /// Assign a (new) pattern.
   Pattern& operator=(const Pattern& pattern)
   {
+    if (this == &pattern)
+      return *this;
     clear();
     opt_ = pattern.opt_;
     rex_ = pattern.rex_;
@@ -239,6 +256,13 @@ class Pattern {
     vms_ = pattern.vms_;
     ems_ = pattern.ems_;
     wms_ = pattern.wms_;
+    len_ = pattern.len_;
+    min_ = pattern.min_;
+    one_ = pattern.one_;
+    std::memcpy(pre_, pattern.pre_, sizeof(pre_));
+    std::memcpy(bit_, pattern.bit_, sizeof(bit_));
+    std::memcpy(pmh_, pattern.pmh_, sizeof(pmh_));
+    std::memcpy(pma_, pattern.pma_, sizeof(pma_));
     if (pattern.nop_ > 0 && pattern.opc_ != NULL)
     {
       nop_ = pattern.nop_;
@@ -249,6 +273,7 @@ class Pattern {
     }
     else
     {
+      opc_ = pattern.opc_;
       fsm_ = pattern.fsm_;
     }
     return *this;
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index b149809..12b8eee 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -164,6 +164,12 @@ void Pattern::error(regex_error_type code, size_t pos) const
 void Pattern::init(const char *options, const uint8_t *pred)
 {
   init_options(options);
+  vno_ = 0;
+  eno_ = 0;
+  pms_ = 0;
+  vms_ = 0;
+  ems_ = 0;
+  wms_ = 0;
   nop_ = 0;
   len_ = 0;
   min_ = 0;
-- 
2.43.0


From ac6eb7af9e18a8e59c831efdebff3beb44a9a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 03/44] fix: copying a matcher copies the search table's
 character positions

lcp_ and lcs_ belong to bmd_ and bms_ but were not copied with them, the copy
searched with indeterminate positions.
---
 include/reflex/matcher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 0e65be7..c30e04f 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -105,6 +105,8 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
       tab_(matcher.tab_)
   {
     DBGLOG("Matcher::Matcher(matcher)");
+    lcp_ = matcher.lcp_;
+    lcs_ = matcher.lcs_;
     bmd_ = matcher.bmd_;
     if (bmd_ != 0)
       std::memcpy(bms_, matcher.bms_, sizeof(bms_));
@@ -115,6 +117,8 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     PatternMatcher<reflex::Pattern>::operator=(matcher);
     ded_ = matcher.ded_;
     tab_ = matcher.tab_;
+    lcp_ = matcher.lcp_;
+    lcs_ = matcher.lcs_;
     bmd_ = matcher.bmd_;
     if (bmd_ != 0)
       std::memcpy(bms_, matcher.bms_, sizeof(bms_));
-- 
2.43.0


From dca4f592a5cfc8e9a56fcb0cdc7a5d4ec1de4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 04/44] fix: switching the pattern of a matcher drops the
 search table of the old pattern

---
 include/reflex/matcher.h | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index c30e04f..d2a7c5c 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -129,6 +129,42 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   {
     return new Matcher(*this);
   }
+  using PatternMatcher<reflex::Pattern>::pattern;
+  /// Set the pattern to use with this matcher as a shared pointer to another matcher pattern.
+  virtual PatternMatcher& pattern(const Matcher& matcher) ///< the other matcher
+    /// @returns this matcher
+  {
+    bmd_ = 0; // drop the search table of the previous pattern
+    return PatternMatcher<reflex::Pattern>::pattern(matcher);
+  }
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual PatternMatcher& pattern(const Pattern& pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    bmd_ = 0; // drop the search table of the previous pattern
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual PatternMatcher& pattern(const Pattern *pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    bmd_ = 0; // drop the search table of the previous pattern
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual PatternMatcher& pattern(const char *pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0; // drop the search table of the previous pattern
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual PatternMatcher& pattern(const std::string& pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0; // drop the search table of the previous pattern
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
   /// Reset this matcher's state to the initial state.
   virtual void reset(const char *opt = NULL)
   {
-- 
2.43.0


From 67b3f94f3173a08b72319c8d05679e23bff76e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 05/44] fix: copying a fuzzy matcher keeps its edit options,
 assigning resizes its backtrack points

---
 fuzzy/fuzzymatcher.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index e2590d6..50c9a91 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -134,9 +134,9 @@ class FuzzyMatcher : public Matcher {
       Matcher(matcher),
       max_(matcher.max_),
       err_(0),
-      ins_(true),
-      del_(true),
-      sub_(true)
+      ins_(matcher.ins_),
+      del_(matcher.del_),
+      sub_(matcher.sub_)
   {
     DBGLOG("FuzzyMatcher::FuzzyMatcher(matcher)");
     bpt_.resize(max_);
@@ -150,6 +150,7 @@ class FuzzyMatcher : public Matcher {
     ins_ = matcher.ins_;
     del_ = matcher.del_;
     sub_ = matcher.sub_;
+    bpt_.resize(max_);
     return *this;
   }
   /// Polymorphic cloning.
-- 
2.43.0


From 2b25d354a7590a0c5898c5c9a8b9c2d1ff1cbe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 06/44] fix: cloning a matcher of a derived class keeps its
 class

---
 include/reflex/abslexer.h   |  5 +++++
 include/reflex/flexlexer.h  |  5 +++++
 include/reflex/stdmatcher.h | 10 ++++++++++
 3 files changed, 20 insertions(+)

diff --git a/include/reflex/abslexer.h b/include/reflex/abslexer.h
index 46ae3f5..d9b8967 100644
--- a/include/reflex/abslexer.h
+++ b/include/reflex/abslexer.h
@@ -71,6 +71,11 @@ class AbstractLexer {
         M(pattern, input, opt),
         lexer_(lexer)
     { }
+    /// Polymorphic cloning.
+    virtual Matcher *clone()
+    {
+      return new Matcher(*this);
+    }
    protected:
     /// Returns true if matcher should wrap input after EOF (lexer wrap() should return 0 to wrap input after EOF).
     virtual bool wrap()
diff --git a/include/reflex/flexlexer.h b/include/reflex/flexlexer.h
index d4ef52c..34ae539 100644
--- a/include/reflex/flexlexer.h
+++ b/include/reflex/flexlexer.h
@@ -431,6 +431,11 @@ class FlexLexer : public AbstractLexer<M> {
       :
         AbstractBaseLexer::Matcher(pattern, input, lexer, opt)
     { }
+    /// Polymorphic cloning.
+    virtual Matcher *clone()
+    {
+      return new Matcher(*this);
+    }
     /// Read character sequences via a Flex-compatible virtual FlexLexer::LexerInput method.
     virtual size_t get(
         char  *s,
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index e2bc303..5812e65 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -407,6 +407,11 @@ class StdEcmaMatcher : public StdMatcher {
     own_ = false;
   }
   using StdMatcher::pattern;
+  /// Polymorphic cloning.
+  virtual StdEcmaMatcher *clone()
+  {
+    return new StdEcmaMatcher(*this);
+  }
   /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent), fails when a POSIX std::regex is given.
   virtual PatternMatcher& pattern(const Pattern& pattern) ///< std::regex for this matcher
     /// @returns this matcher.
@@ -488,6 +493,11 @@ class StdPosixMatcher : public StdMatcher {
     own_ = false;
   }
   using StdMatcher::pattern;
+  /// Polymorphic cloning.
+  virtual StdPosixMatcher *clone()
+  {
+    return new StdPosixMatcher(*this);
+  }
   /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent), fails when a non-POSIX ERE std::regex is given.
   virtual PatternMatcher& pattern(const Pattern& pattern) ///< std::regex for this matcher
     /// @returns this matcher.
-- 
2.43.0


From 3ab9ff8b5e9d1e104945e450c6bc6c0af6927768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 07/44] fix: default-constructed PCRE2 and std matchers have
 defined options

---
 include/reflex/pcre2matcher.h | 8 ++++++--
 include/reflex/stdmatcher.h   | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index f370e99..30583ae 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -56,10 +56,12 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   PCRE2Matcher()
     :
       PatternMatcher<std::string>(),
+      cop_(0),
       opc_(NULL),
       dat_(NULL),
       ctx_(NULL),
-      stk_(NULL)
+      stk_(NULL),
+      jit_(false)
   {
     reset();
   }
@@ -458,7 +460,9 @@ class PCRE2UTFMatcher : public PCRE2Matcher {
   }
   /// Default constructor.
   PCRE2UTFMatcher() : PCRE2Matcher()
-  { }
+  {
+    cop_ = PCRE2_UTF | PCRE2_UCP;
+  }
   /// Construct matcher engine from a string regex, and an input character sequence.
   template<typename P> /// @tparam <P> pattern is a string regex
   PCRE2UTFMatcher(
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index 5812e65..5ce59ef 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -52,7 +52,10 @@ class StdMatcher : public PatternMatcher<std::regex> {
     return reflex::convert(regex, "!=:bcdfnrstvwxBDSW?", flags);
   }
   /// Default constructor.
-  StdMatcher() : PatternMatcher<std::regex>()
+  StdMatcher()
+    :
+      PatternMatcher<std::regex>(),
+      flg_()
   {
     reset();
   }
-- 
2.43.0


From 0e9129973809f08cf449f4f4251ec067c593010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 08/44] fix: matching a buffer in place resets the state of the
 derived matcher

---
 include/reflex/absmatcher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index ff9cce7..b5fc7df 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -482,6 +482,7 @@ class AbstractMatcher {
   {
     if (size > 0)
     {
+      reset(); // also resets the state of the derived matcher, e.g. indent stops
       if (own_)
       {
 #if defined(WITH_REALLOC)
-- 
2.43.0


From 96fd6a2f7717e9ee73e6877a00778e5874aa4fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 09/44] fix: resetting a matcher also drops pushed indent stops
 and the edit count

---
 fuzzy/fuzzymatcher.h     | 6 ++++++
 include/reflex/matcher.h | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 50c9a91..35777bc 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -158,6 +158,12 @@ class FuzzyMatcher : public Matcher {
   {
     return new FuzzyMatcher(*this);
   }
+  /// Reset this matcher's state to the initial state.
+  virtual void reset(const char *opt = NULL)
+  {
+    Matcher::reset(opt);
+    err_ = 0;
+  }
   /// Returns the number of edits made for the match, edits() <= max, not guaranteed to be the minimum edit distance.
   uint8_t edits()
     /// @returns 0 to max edit distance
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index d2a7c5c..f4d5d85 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -172,6 +172,8 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     PatternMatcher<reflex::Pattern>::reset(opt);
     ded_ = 0;
     tab_.resize(0);
+    while (!stk_.empty())
+      stk_.pop();
     bmd_ = 0;
   }
   /// Returns captured text as a std::pair<const char*,size_t> with string pointer (non-0-terminated) and length.
-- 
2.43.0


From 3dd7863abac837ae41742011fa8106b39c766d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 10/44] fix: winput() must read all bytes of a multi-byte
 character

The loop incremented the stored byte instead of the pointer, so the character
was assembled from the first byte and whatever followed the sequence.
---
 include/reflex/absmatcher.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index b5fc7df..389cec8 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -991,11 +991,12 @@ class AbstractMatcher {
     int c;
     if ((c = input()) == EOF)
       return EOF;
-    if (static_cast<unsigned char>(*s++ = c) >= 0x80)
+    *s++ = static_cast<char>(c);
+    if (c >= 0xC0)
     {
-      while (((++*s = get()) & 0xC0) == 0x80)
-        continue;
-      got_ = static_cast<unsigned char>(buf_[cur_ = --pos_]);
+      int n = 1 + (c >= 0xE0) + (c >= 0xF0);
+      while (n-- > 0 && (peek() & 0xC0) == 0x80)
+        *s++ = static_cast<char>(input());
     }
     return utf8(tmp);
   }
-- 
2.43.0


From efc911efecda89374d43f4337664d088472301e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 11/44] fix: the character displaced by text() is an unsigned
 value

chr_ was negative for bytes above 127, which input() then returned, 0xFF as EOF.
chr() returned these bytes as negative values too.
---
 include/reflex/absmatcher.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 389cec8..491eefa 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -556,7 +556,7 @@ class AbstractMatcher {
   {
     if (chr_ == '\0')
     {
-      chr_ = txt_[len_];
+      chr_ = static_cast<unsigned char>(txt_[len_]);
       txt_[len_] = '\0';
     }
     return txt_;
@@ -593,7 +593,7 @@ class AbstractMatcher {
   inline int chr() const
     /// @returns 8-bit char
   {
-    return *txt_;
+    return static_cast<unsigned char>(*txt_);
   }
   /// Returns the first wide character of the text matched.
   inline int wchr() const
@@ -1525,7 +1525,7 @@ class AbstractMatcher {
   {
     if (chr_ != '\0')
     {
-      txt_[len_] = chr_;
+      txt_[len_] = static_cast<char>(chr_);
       chr_ = '\0';
     }
   }
-- 
2.43.0


From 4af5187bdbbd54cc35b5d345927a2c8b2757d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 12/44] fix: option T at the end of the options is not skipped
 past the end

---
 include/reflex/absmatcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 491eefa..50a2d91 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -339,7 +339,8 @@ class AbstractMatcher {
               opt_.W = true;
               break;
             case 'T':
-              opt_.T = isdigit(*(s += (s[1] == '=') + 1)) ? static_cast<char>(*s - '0') : 0;
+              s += (s[1] == '=');
+              opt_.T = s[1] >= '0' && s[1] <= '9' ? static_cast<char>(*++s - '0') : 0;
               break;
           }
         }
-- 
2.43.0


From bf10a98a3d69abd524300626c8ea9db46c911d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 13/44] fix: buffering all input appends to the input already
 buffered

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 50a2d91..091ffa7 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -402,7 +402,7 @@ class AbstractMatcher {
     if (n > 0)
     {
       (void)grow(n + 1); // now attempt to fetch all (remaining) data to store in the buffer, +1 for a final \0
-      end_ += get(buf_, n);
+      end_ += get(buf_ + end_, n);
     }
     while (in.good()) // there is more to get while good(), e.g. via wrap()
     {
-- 
2.43.0


From 5306b96468dc8ad34f53eb74670ba405ec32d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 14/44] fix: unput() in place leaves the buffer alone, wunput()
 puts back the text terminator

---
 include/reflex/absmatcher.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 091ffa7..2fe734a 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1019,6 +1019,10 @@ class AbstractMatcher {
       std::memmove(buf_ + 1, buf_, end_);
       ++end_;
     }
+    else
+    {
+      return;
+    }
     buf_[pos_] = c;
     cur_ = pos_;
   }
@@ -1026,6 +1030,7 @@ class AbstractMatcher {
   void wunput(int c) ///< character to put back
   {
     DBGLOG("AbstractMatcher::wunput()");
+    reset_text();
     char tmp[8];
     size_t n = utf8(c, tmp);
     if (pos_ >= n)
@@ -1041,6 +1046,10 @@ class AbstractMatcher {
       std::memmove(buf_ + n, buf_, end_);
       end_ += n;
     }
+    else
+    {
+      return;
+    }
     std::memcpy(&buf_[pos_], tmp, n);
     cur_ = pos_;
   }
-- 
2.43.0


From cd2b8e28d0db4a490cef1b00a158fabf22299649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 15/44] fix: peeking and reading ahead after text() sees the
 character displaced by the terminator

peek(), at_bow() and at_eow() returned the terminating zero placed by text(), and
reading more input stored the input over the terminator, which was then put back
over the input.
---
 include/reflex/absmatcher.h | 77 +++++++++++++++----------------------
 1 file changed, 30 insertions(+), 47 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 2fe734a..6f18145 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -951,13 +951,13 @@ class AbstractMatcher {
   inline bool at_bow()
     /// @returns true if this matcher matched text that begins a word
   {
-    return !isword(got_) && isword(txt_ < buf_ + end_ ? static_cast<unsigned char>(*txt_) : peek_more());
+    return !isword(got_) && isword(len_ == 0 && chr_ != '\0' ? chr_ : txt_ < buf_ + end_ ? static_cast<unsigned char>(*txt_) : peek_more());
   }
   /// Returns true if this matcher matched text that ends a word.
   inline bool at_eow()
     /// @returns true if this matcher matched text that ends a word
   {
-    return isword(got_) && !isword(txt_ < buf_ + end_ ? static_cast<unsigned char>(*txt_) : peek_more());
+    return isword(got_) && !isword(len_ == 0 && chr_ != '\0' ? chr_ : txt_ < buf_ + end_ ? static_cast<unsigned char>(*txt_) : peek_more());
   }
   /// Returns the next 8-bit character (unsigned char 0..255 or EOF) from the input character sequence, while preserving the current text() match (but pointer returned by text() may change; warning: does not preserve the yytext string pointer when options --flex and --bison are used).
   int input()
@@ -1058,28 +1058,13 @@ class AbstractMatcher {
     /// @returns the character (unsigned char 0..255) or EOF (-1)
   {
     DBGLOG("AbstractMatcher::peek()");
-#if defined(WITH_FAST_GET)
-    return pos_ < end_ ? static_cast<unsigned char>(buf_[pos_]) : peek_more();
-#else
     if (pos_ < end_)
-      return static_cast<unsigned char>(buf_[pos_]);
-    if (eof_)
-      return EOF;
-    while (true)
     {
-      if (end_ + blk_ + 1 >= max_)
-        (void)grow();
-      end_ += get(buf_ + end_, blk_ > 0 ? blk_ : max_ - end_ - 1);
-      if (pos_ < end_)
-        return static_cast<unsigned char>(buf_[pos_]);
-      DBGLOGN("peek(): EOF");
-      if (!wrap())
-      {
-        eof_ = true;
-        return EOF;
-      }
+      if (chr_ != '\0' && buf_ + pos_ == txt_ + len_)
+        return chr_;
+      return static_cast<unsigned char>(buf_[pos_]);
     }
-#endif
+    return peek_more();
   }
 #if defined(WITH_SPAN)
   /// Returns pointer to the begin of the line in the buffer containing the matched text.
@@ -1093,7 +1078,8 @@ class AbstractMatcher {
   inline const char *eol(bool inclusive = false) ///< true if inclusive, i.e. point after \n
     /// @returns pointer to the end of line
   {
-    if (chr_ == '\n' || (txt_ + len_ < buf_ + end_ && txt_[len_] == '\n'))
+    reset_text();
+    if (txt_ + len_ < buf_ + end_ && txt_[len_] == '\n')
       return txt_ + len_ + inclusive;
     size_t loc = pos_;
     while (true)
@@ -1507,28 +1493,7 @@ class AbstractMatcher {
     /// @returns the character read (unsigned char 0..255) or EOF (-1)
   {
     DBGLOG("AbstractMatcher::get()");
-#if defined(WITH_FAST_GET)
     return pos_ < end_ ? static_cast<unsigned char>(buf_[pos_++]) : get_more();
-#else
-    if (pos_ < end_)
-      return static_cast<unsigned char>(buf_[pos_++]);
-    if (eof_)
-      return EOF;
-    while (true)
-    {
-      if (end_ + blk_ + 1 >= max_)
-        (void)grow();
-      end_ += get(buf_ + end_, blk_ > 0 ? blk_ : max_ - end_ - 1);
-      if (pos_ < end_)
-        return static_cast<unsigned char>(buf_[pos_++]);
-      DBGLOGN("get(): EOF");
-      if (!wrap())
-      {
-        eof_ = true;
-        return EOF;
-      }
-    }
-#endif
   }
   /// Reset the matched text by removing the terminating \0, which is needed to search for a new match.
   inline void reset_text()
@@ -1563,20 +1528,29 @@ class AbstractMatcher {
     DBGLOG("AbstractMatcher::get_more()");
     if (eof_)
       return EOF;
+    bool trm = chr_ != '\0';
+    reset_text(); // put back the character after the matched text, which may be located where we read more input
+    int c = EOF;
     while (true)
     {
       if (end_ + blk_ + 1 >= max_)
         (void)grow();
       end_ += get(buf_ + end_, blk_ > 0 ? blk_ : max_ - end_ - 1);
       if (pos_ < end_)
-        return static_cast<unsigned char>(buf_[pos_++]);
+      {
+        c = static_cast<unsigned char>(buf_[pos_++]);
+        break;
+      }
       DBGLOGN("get_more(): EOF");
       if (!wrap())
       {
         eof_ = true;
-        return EOF;
+        break;
       }
     }
+    if (trm)
+      (void)text();
+    return c;
   }
   /// Peek at the next character and grow the buffer to make more room if necessary.
   inline int peek_more()
@@ -1585,20 +1559,29 @@ class AbstractMatcher {
     DBGLOG("AbstractMatcher::peek_more()");
     if (eof_)
       return EOF;
+    bool trm = chr_ != '\0';
+    reset_text(); // put back the character after the matched text, which may be located where we read more input
+    int c = EOF;
     while (true)
     {
       if (end_ + blk_ + 1 >= max_)
         (void)grow();
       end_ += get(buf_ + end_, blk_ > 0 ? blk_ : max_ - end_ - 1);
       if (pos_ < end_)
-        return static_cast<unsigned char>(buf_[pos_]);
+      {
+        c = static_cast<unsigned char>(buf_[pos_]);
+        break;
+      }
       DBGLOGN("peek_more(): EOF");
       if (!wrap())
       {
         eof_ = true;
-        return EOF;
+        break;
       }
     }
+    if (trm)
+      (void)text();
+    return c;
   }
   Option    opt_; ///< options for matcher engines
   char     *buf_; ///< input character sequence buffer
-- 
2.43.0


From b5ac45797dfe155d00a3d3d16c81ce1b7feea832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 16/44] fix: buffering all input first puts back the character
 displaced by text()

---
 include/reflex/absmatcher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 6f18145..926149e 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -398,6 +398,7 @@ class AbstractMatcher {
     blk_ = blk;
     if (blk > 0 || eof_ || in.eof())
       return true;
+    reset_text();
     size_t n = in.size(); // get the (rest of the) data size, which is 0 if unknown (e.g. reading input from a TTY or a pipe)
     if (n > 0)
     {
-- 
2.43.0


From 2680bf7a3a15b30b1f6b8ead29fe53e1eafcb254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 17/44] fix: growing the buffer leaves room for the zero that
 terminates the text

A block size equal to the room left filled the buffer up to its end, text() then
wrote past the buffer.
---
 include/reflex/absmatcher.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 926149e..4b8b6d2 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1408,13 +1408,13 @@ class AbstractMatcher {
     lpb_ -= gap;
     num_ += gap;
     std::memmove(buf_, buf_ + gap, end_);
-    if (max_ - end_ >= need)
+    if (max_ - end_ >= need + 1)
     {
       DBGLOG("Shift buffer to close gap of %zu bytes", gap);
     }
     else
     {
-      size_t newmax = end_ + need;
+      size_t newmax = end_ + need + 1;
       while (max_ < newmax)
         max_ *= 2;
       DBGLOG("Expand buffer to %zu bytes", max_);
@@ -1438,7 +1438,7 @@ class AbstractMatcher {
     bol_ = buf_;
 #else
     size_t gap = txt_ - buf_;
-    if (max_ - end_ + gap >= need)
+    if (max_ - end_ + gap >= need + 1)
     {
       DBGLOG("Shift buffer to close gap of %zu bytes", gap);
       (void)lineno();
@@ -1454,7 +1454,7 @@ class AbstractMatcher {
     }
     else
     {
-      size_t newmax = end_ - gap + need;
+      size_t newmax = end_ - gap + need + 1;
       size_t oldmax = max_;
       while (max_ < newmax)
         max_ *= 2;
-- 
2.43.0


From 08724473c17e1aa306202fb6879cd6119fd73fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 18/44] fix: skipping when the end of input was reached leaves
 a valid text pointer

---
 include/reflex/absmatcher.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 4b8b6d2..c6913ab 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1165,17 +1165,17 @@ class AbstractMatcher {
     len_ = 0;
     while (true)
     {
-      txt_ = static_cast<char*>(std::memchr(buf_ + pos_, c, end_ - pos_));
-      if (txt_ != NULL)
+      char *s = static_cast<char*>(std::memchr(buf_ + pos_, c, end_ - pos_));
+      if (s != NULL)
       {
-        ++txt_;
+        txt_ = s + 1;
         set_current(txt_ - buf_);
         return true;
       }
-      if (eof_)
-        break;
       pos_ = cur_ = end_;
       txt_ = buf_ + end_;
+      if (eof_)
+        break;
       (void)grow();
       end_ += get(buf_ + end_, blk_ > 0 ? blk_ : max_ - end_ - 1);
       if (pos_ >= end_ && !wrap())
-- 
2.43.0


From 464fefefc2f5d3ca66bfa1638af92ddefe3cdf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 19/44] fix: the rest of a character that did not fit in a read
 has the length of the rest

---
 lib/input.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index b13a67a..4bfba87 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -796,7 +796,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -835,7 +835,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -866,7 +866,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -897,7 +897,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -934,7 +934,7 @@ size_t Input::file_get(char *s, size_t n)
           else
           {
             uidx_ = 1;
-            ulen_ = 2;
+            ulen_ = 1;
           }
         }
       }
@@ -988,7 +988,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
-- 
2.43.0


From c9f1bda145f2ce8ca4932210f423b9b81dd6b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 20/44] fix: the first character after a UTF-16 little endian
 BOM is decoded, a short read while checking for a BOM loses nothing

---
 lib/input.cpp | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 4bfba87..90752dc 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -684,15 +684,12 @@ void Input::file_init(file_encoding_type enc)
           ulen_ = 2;
           if (utf8_[0] == '\0' && utf8_[1] == '\0')  // UTF-32 big endian BOM 0000XXXX?
           {
-            if (::fread(&utf8_[2], 2, 1, file_) == 1)
+            ulen_ += static_cast<unsigned short>(::fread(&utf8_[2], 1, 2, file_));
+            if (ulen_ == 4 && utf8_[2] == '\xfe' && utf8_[3] == '\xff') // UTF-32 big endian BOM 0000FEFF?
             {
-              ulen_ = 4;
-              if (utf8_[2] == '\xfe' && utf8_[3] == '\xff') // UTF-32 big endian BOM 0000FEFF?
-              {
-                size_ = 0;
-                ulen_ = 0;
-                utfx_ = file_encoding::utf32be;
-              }
+              size_ = 0;
+              ulen_ = 0;
+              utfx_ = file_encoding::utf32be;
             }
           }
           else if (utf8_[0] == '\xfe' && utf8_[1] == '\xff') // UTF-16 big endian BOM FEFF?
@@ -703,21 +700,29 @@ void Input::file_init(file_encoding_type enc)
           }
           else if (utf8_[0] == '\xff' && utf8_[1] == '\xfe') // UTF-16 or UTF-32 little endian BOM FFFEXXXX?
           {
-            if (::fread(&utf8_[2], 2, 1, file_) == 1)
+            ulen_ += static_cast<unsigned short>(::fread(&utf8_[2], 1, 2, file_));
+            if (ulen_ == 4 && utf8_[2] == '\0' && utf8_[3] == '\0') // UTF-32 little endian BOM FFFE0000?
             {
-              if (utf8_[2] == '\0' && utf8_[3] == '\0') // UTF-32 little endian BOM FFFE0000?
-              {
-                size_ = 0;
-                ulen_ = 0;
-                utfx_ = file_encoding::utf32le;
-              }
-              else
+              size_ = 0;
+              ulen_ = 0;
+              utfx_ = file_encoding::utf32le;
+            }
+            else if (ulen_ == 4)
+            {
+              // translate the first character after the UTF-16 BOM to UTF-8
+              unsigned char buf[2];
+              int c = static_cast<unsigned char>(utf8_[2]) | static_cast<unsigned char>(utf8_[3]) << 8;
+              if (c >= 0xD800 && c < 0xE000)
               {
-                size_ = 0;
-                uidx_ = 2;
-                ulen_ = 1;
-                utfx_ = file_encoding::utf16le;
+                // UTF-16 surrogate pair
+                if (c < 0xDC00 && ::fread(buf, 2, 1, file_) == 1 && (buf[1] & 0xFC) == 0xDC)
+                  c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[0] | buf[1] << 8);
+                else
+                  c = REFLEX_NONCHAR;
               }
+              size_ = 0;
+              ulen_ = static_cast<unsigned short>(utf8(c, utf8_));
+              utfx_ = file_encoding::utf16le;
             }
           }
           else if (utf8_[0] == '\xef' && utf8_[1] == '\xbb') // UTF-8 BOM EFBBXX?
-- 
2.43.0


From 23d2aa1600ed3685016aa486e35edf948d69beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 21/44] fix: bytes read ahead of a file without BOM are
 translated completely and counted, UTF-32 units out of range are not
 characters, the size of UTF-16LE pairs is right

---
 include/reflex/input.h |   2 +-
 lib/input.cpp          | 116 +++++++++++++++--------------------------
 2 files changed, 43 insertions(+), 75 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index d9df043..5254257 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -783,7 +783,7 @@ class Input {
   FILE                 *file_;    ///< FILE* input (when non-null)
   std::istream         *istream_; ///< stream input (when non-null)
   size_t                size_;    ///< size of the remaining input in bytes (size_ == 0 may indicate size is not set)
-  char                  utf8_[8]; ///< UTF-8 normalization buffer, >=8 bytes
+  char                  utf8_[16]; ///< UTF-8 normalization buffer, >=12 bytes to hold up to four translated bytes
   unsigned short        uidx_;    ///< index in utf8_[]
   unsigned short        ulen_;    ///< length of data (remaining after uidx_) in utf8_[] or 0 if no data
   file_encoding_type    utfx_;    ///< file_encoding
diff --git a/lib/input.cpp b/lib/input.cpp
index 90752dc..78e371d 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -859,6 +859,8 @@ size_t Input::file_get(char *s, size_t n)
       while (n > 0 && ::fread(buf, 4, 1, file_) == 1)
       {
         int c = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
+        if (c < 0)
+          c = REFLEX_NONCHAR;
         if (c < 0x80)
         {
           *t++ = static_cast<char>(c);
@@ -890,6 +892,8 @@ size_t Input::file_get(char *s, size_t n)
       while (n > 0 && ::fread(buf, 4, 1, file_) == 1)
       {
         int c = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+        if (c < 0)
+          c = REFLEX_NONCHAR;
         if (c < 0x80)
         {
           *t++ = static_cast<char>(c);
@@ -1122,8 +1126,8 @@ void Input::file_size()
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[2] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] << 8 | buf[3]);
+            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[3] & 0xFC) == 0xDC)
+              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] | buf[3] << 8);
             else
               c = REFLEX_NONCHAR;
           }
@@ -1140,6 +1144,8 @@ void Input::file_size()
         while (::fread(buf, 4, 1, file_) == 1)
         {
           int c = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
+          if (c < 0)
+            c = REFLEX_NONCHAR;
 #ifndef WITH_UTF8_UNRESTRICTED
           if (c > 0x10FFFF)
             c = REFLEX_NONCHAR;
@@ -1151,6 +1157,8 @@ void Input::file_size()
         while (::fread(buf, 4, 1, file_) == 1)
         {
           int c = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+          if (c < 0)
+            c = REFLEX_NONCHAR;
 #ifndef WITH_UTF8_UNRESTRICTED
           if (c > 0x10FFFF)
             c = REFLEX_NONCHAR;
@@ -1164,6 +1172,7 @@ void Input::file_size()
         if (n >= k)
           size_ = static_cast<size_t>(n - k);
     }
+    size_ += ulen_; // include the bytes read ahead that are pending in utf8_[]
     ::clearerr(file_);
     fseeko(file_, k, SEEK_SET);
   }
@@ -1191,7 +1200,7 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
     {
       // translate (non-BOM) plain bytes (1 to 4 bytes) buffered in utf8_[]
       unsigned char buf[sizeof(utf8_)];
-      std::memcpy(buf, utf8_, sizeof(utf8_));
+      std::memcpy(buf, utf8_ + uidx_, ulen_);
       unsigned char *b = buf;
       char *t = utf8_;
       int c1, c2;
@@ -1273,92 +1282,51 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
           }
           break;
         case file_encoding::utf16be:
-          // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
+        case file_encoding::utf16le:
+          // enforcing non-BOM UTF-16: translate utf8_[] (completed with input) from UTF-16 to UTF-8
+          while (ulen_ > 0)
           {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
+            if (ulen_ < 2)
             {
-              c1 = b[0] << 8 | b[1];
-              c2 = b[2] << 8 | b[3];
-              if (c1 >= 0xD800 && c1 < 0xE000)
-              {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
-              }
-              else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
+              if (::fread(b + ulen_, 2 - ulen_, 1, file_) != 1)
+                break;
+              ulen_ = 2;
             }
-          }
-          break;
-        case file_encoding::utf16le:
-          // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
-          {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
+            c1 = enc == file_encoding::utf16be ? b[0] << 8 | b[1] : b[0] | b[1] << 8;
+            b += 2;
+            ulen_ -= 2;
+            if (c1 >= 0xD800 && c1 < 0xE000)
             {
-              c1 = b[0] | b[1] << 8;
-              c2 = b[2] | b[3] << 8;
-              if (c1 >= 0xD800 && c1 < 0xE000)
+              // UTF-16 surrogate pair
+              c2 = 0;
+              if (c1 < 0xDC00 && (ulen_ >= 2 || ::fread(b + ulen_, 2 - ulen_, 1, file_) == 1))
               {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
+                c2 = enc == file_encoding::utf16be ? b[0] << 8 | b[1] : b[0] | b[1] << 8;
+                b += 2;
+                ulen_ = ulen_ > 2 ? ulen_ - 2 : 0;
               }
+              if ((c2 & 0xFC00) == 0xDC00)
+                c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
               else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
+                c1 = REFLEX_NONCHAR;
             }
-          }
-          break;
-        case file_encoding::utf32be:
-          // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
-          {
-            c1 = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
             t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
           }
+          uidx_ = 0;
+          ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
+        case file_encoding::utf32be:
         case file_encoding::utf32le:
-          // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
+          // enforcing non-BOM UTF-32: translate utf8_[] (completed with input) from UTF-32 to UTF-8
+          if (ulen_ >= 4 || ::fread(b + ulen_, 4 - ulen_, 1, file_) == 1)
           {
-            c1 = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+            c1 = enc == file_encoding::utf32be ? b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3] : b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24;
+            if (c1 < 0)
+              c1 = REFLEX_NONCHAR;
             t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
           }
+          uidx_ = 0;
+          ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
         default:
           break;
-- 
2.43.0


From ee430053e9a3135c26080b68ca9ee08d8cd34aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 22/44] fix: code page entries that differ from the standards
 (CP 1251, 1254, 1255, 1257, 1258, ISO-8859-3, 4, 6, 13, KOI8-RU)

---
 lib/input.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 78e371d..c029751 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -167,9 +167,9 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x0402,0x0403,0x201A,0x0453,0x201E,0x2026,0x2020,0x2021,0x20AC,0x2030,0x0409,0x2039,0x040A,0x040C,0x040B,0x040F,
   0x0452,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,0x0459,0x203A,0x045A,0x045C,0x045B,0x045F,
-     160,0x040E,0x045E,0x0408,   164,0x0409,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
+     160,0x040E,0x045E,0x0408,   164,0x0490,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
      176,   177,0x0406,0x0456,0x0491,   181,   182,   183,0x0451,0x2116,0x0454,   187,0x0458,0x0405,0x0455,0x0457,
-  0x0100,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
+  0x0410,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
   0x0420,0x0421,0x0422,0x0423,0x0424,0x0425,0x0426,0x0427,0x0428,0x0429,0x042A,0x042B,0x042C,0x042D,0x042E,0x042F,
   0x0430,0x0431,0x0432,0x0433,0x0434,0x0435,0x0436,0x0437,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,0x043F,
   0x0440,0x0441,0x0442,0x0443,0x0444,0x0445,0x0446,0x0447,0x0448,0x0449,0x044A,0x044B,0x044C,0x044D,0x044E,0x044F
@@ -229,7 +229,7 @@ const unsigned short codepages[38][256] =
      192,   193,   194,   195,   196,   197,   198,   199,   200,   201,   202,   203,   204,   205,   206,   207,
   0x011E,   209,   210,   211,   212,   213,   214,   215,   216,   217,   218,   219,   220,0x0130,0x015E,   223,
      224,   225,   226,   227,   228,   229,   230,   231,   232,   233,   234,   235,   236,   237,   238,   239,
-  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,   252,   252,0x0131,0x015F,   255
+  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,   251,   252,0x0131,0x015F,   255
   },
   // Windows CP 1255 to Unicode
   {
@@ -245,7 +245,7 @@ const unsigned short codepages[38][256] =
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x02DC,0x2122,   154,0x203A,   156,   157,   158,   159,
      160,   161,   162,   163,0x20AA,   165,   166,   167,   168,   169,0x00D7,   171,   172,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,0x00F7,   187,   188,   189,   190,   191,
-  0x05B0,0x05B1,0x05B2,0x0583,0x0584,0x0585,0x0586,0x0587,0x0588,0x0589,0x058A,0x058B,0x058C,0x058D,0x058E,0x058F,
+  0x05B0,0x05B1,0x05B2,0x05B3,0x05B4,0x05B5,0x05B6,0x05B7,0x05B8,0x05B9,0x05BA,0x05BB,0x05BC,0x05BD,0x05BE,0x05BF,
   0x05C0,0x05C1,0x05C2,0x05C3,0x05F0,0x05F1,0x05F2,0x05F3,0x05F4,   217,   218,   219,   220,   221,   222,   223,
   0x05D0,0x05D1,0x05D2,0x05D3,0x05D4,0x05D5,0x05D6,0x05D7,0x05D8,0x05D9,0x05DA,0x05DB,0x05DC,0x05DD,0x05DE,0x05DF,
   0x05E0,0x05E1,0x05E2,0x05E3,0x05E4,0x05E5,0x05E6,0x05E7,0x05E8,0x05E9,0x05EA,   251,   252,0x200E,0x200F,   255
@@ -281,12 +281,12 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x20AC,   129,0x201A,   131,0x201E,0x2026,0x2020,0x2021,   136,0x2030,   138,0x2039,   140,0x00A8,0x02C7,0x00B8,
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,   154,0x203A,   156,0x00AF,0x02DB,   159,
-     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,   175,
-     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,   191,
+     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,   198,
+     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,   230,
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
+  0x0161,0x0144,0x0146,   243,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
   },
   // Windows CP 1258 to Unicode
   {
@@ -299,7 +299,7 @@ const unsigned short codepages[38][256] =
       96,    97,    98,    99,   100,   101,   102,   103,   104,   105,   106,   107,   108,   109,   110,   111,
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x20AC,   129,0x201A,0x0192,0x201E,0x2026,0x2020,0x2021,0x02C6,0x2030,   138,0x2039,0x0152,   141,   142,   143,
-     244,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x02DC,0x2122,   154,0x203A,0x0153,   157,   158,0x0178,
+     144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x02DC,0x2122,   154,0x203A,0x0153,   157,   158,0x0178,
      160,   161,   162,   163,   164,   165,   166,   167,   168,   169,   170,   171,   172,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,   186,   187,   188,   189,   190,   191,
      192,   193,   194,0x0102,   196,   197,   198,   199,   200,   201,   202,   203,0x0300,   205,   206,   207,
@@ -338,11 +338,11 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x0126,0x2DB2,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
+     160,0x0126,0x02D8,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
      176,0x0127,   178,   179,   180,   181,0x0125,   183,   184,0x0131,0x015F,0x011F,0x0135,   189,   190,0x017C,
      192,   193,   194,   195,   196,0x010A,0x0108,   199,   200,   201,   202,   203,   204,   205,   206,   207,
      208,   209,   210,   211,   212,0x0120,   214,   215,0x011C,   217,   218,   219,   220,0x016C,0x015C,   223,
-     224,   225,   226,   227,   228,0x10B9,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
+     224,   225,   226,   227,   228,0x010B,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
      240,   241,   242,   243,   244,0x0121,   246,   247,0x011D,   249,   250,   251,   252,0x016D,0x015D,0x02D9
   },
   // ISO-8859-4 to Unicode
@@ -357,7 +357,7 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x1041,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
+     160,0x0104,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
      176,0x0105,0x02DB,0x0157,   180,0x0129,0x013C,0x02C7,   184,0x0161,0x0113,0x0123,0x0167,0x014A,0x017E,0x014B,
   0x0100,   193,   194,   195,   196,   197,   198,0x012E,0x010C,   201,0x0118,   203,0x0116,   205,   206,0x012A,
   0x0110,0x0145,0x014C,0x0136,   212,   213,   214,   215,   216,0x0172,   218,   219,   220,0x0168,0x016A,   223,
@@ -398,7 +398,7 @@ const unsigned short codepages[38][256] =
      160,   161,   162,   163,   164,   165,   166,   167,   168,   169,   170,   171,0x060C,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,   186,0x061B,   188,   189,   190,0x061F,
      192,0x0621,0x0622,0x0623,0x0624,0x0625,0x0626,0x0627,0x0628,0x0629,0x062A,0x062B,0x062C,0x062D,0x062E,0x062F,
-  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x062A,   219,   220,   221,   222,   223,
+  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x063A,   219,   220,   221,   222,   223,
   0x0640,0x0641,0x0642,0x0643,0x0644,0x0645,0x0646,0x0647,0x0648,0x0649,0x064A,0x064B,0x064C,0x064D,0x064E,0x064F,
   0x0650,0x0651,0x0652,   243,   244,   245,   246,   247,   248,   249,   250,   251,   252,   253,   254,   255
   },
@@ -514,7 +514,7 @@ const unsigned short codepages[38][256] =
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
+  0x0161,0x0144,0x0146,   243,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
   },
   // ISO-8859-14 to Unicode
   {
@@ -642,8 +642,8 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x2500,0x2502,0x250C,0x2510,0x2514,0x2518,0x251C,0x2524,0x252C,0x2534,0x253C,0x2580,0x2584,0x2588,0x258C,0x2590,
   0x2591,0x2592,0x2593,0x201C,0x25A0,0x2219,0x201D,0x2014,0x2116,0x2122,0x00A0,0x00BB,0x00AE,0x00AB,0x00B7,0x00A4,
-  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045D,0x255E,
-  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040D,0x00A9,
+  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045E,0x255E,
+  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040E,0x00A9,
   0x044E,0x0430,0x0431,0x0446,0x0434,0x0435,0x0444,0x0433,0x0445,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,
   0x043F,0x044F,0x0440,0x0441,0x0442,0x0443,0x0436,0x0432,0x044C,0x044B,0x0437,0x0448,0x044D,0x0449,0x0447,0x044A,
   0x042E,0x0410,0x0411,0x0426,0x0414,0x0415,0x0424,0x0413,0x0425,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,
-- 
2.43.0


From 0f04c85248a335f585540646a7d481b075857a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 23/44] fix: a UTF-16 little endian BOM without text is no
 text, the size of the rest of a plain file is counted from its position

---
 lib/input.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index c029751..30ff07a 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -707,7 +707,13 @@ void Input::file_init(file_encoding_type enc)
               ulen_ = 0;
               utfx_ = file_encoding::utf32le;
             }
-            else if (ulen_ == 4)
+            else if (ulen_ < 4) // UTF-16 little endian BOM without a character following it
+            {
+              size_ = 0;
+              ulen_ = 0;
+              utfx_ = file_encoding::utf16le;
+            }
+            else
             {
               // translate the first character after the UTF-16 BOM to UTF-8
               unsigned char buf[2];
@@ -1167,7 +1173,7 @@ void Input::file_size()
         }
         break;
       default:
-        fseeko(file_, k, SEEK_END);
+        fseeko(file_, 0, SEEK_END);
         off_t n = ftello(file_);
         if (n >= k)
           size_ = static_cast<size_t>(n - k);
-- 
2.43.0


From dc911276c71a8a0bb4fa981ca685034a6cb659c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 24/44] fix: the size of a wide string counts code points above
 10FFFF as the character they are replaced with

---
 lib/input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 30ff07a..804ee3f 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1046,7 +1046,7 @@ void Input::wstring_size()
     else
     {
 #ifndef WITH_UTF8_UNRESTRICTED
-      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000);
+      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c > 0x10FFFF);
 #else
       size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000) + (c >= 0x04000000);
 #endif
-- 
2.43.0


From eba00f1f0e0a19cdfccf4fd685ba8bf6c344726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:23 +0000
Subject: [PATCH 25/44] fix: error messages never read behind a regex that ends
 in a partial UTF-8 sequence

---
 lib/error.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/error.cpp b/lib/error.cpp
index 1d16046..f2971db 100644
--- a/lib/error.cpp
+++ b/lib/error.cpp
@@ -111,7 +111,8 @@ size_t regex_error::displen(const char *s, size_t k)
         ++n;
         if (k < 4)
           break;
-        s += (s[0] != '\0') + (s[1] != '\0') + (s[2] != 0);
+        for (int i = 0; i < 3 && *s != '\0'; ++i)
+          ++s;
         k -= 3;
       }
       else
@@ -147,7 +148,8 @@ const char *regex_error::disppos(const char *s, size_t k)
         // U+1F18E (UTF-8 F0 9F 86 8E) and higher is usually double width
         if (k < 4)
           break;
-        s += (s[0] != '\0') + (s[1] != '\0') + (s[2] != 0);
+        for (int i = 0; i < 3 && *s != '\0'; ++i)
+          ++s;
         k -= 3;
       }
       else
-- 
2.43.0


From d18a62b2a170dfaba0d26bfc96345f01743f150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 26/44] fix: [[:>:]] converts to \> and keeps the regex text
 before it

---
 lib/convert.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 5c930fb..fd63152 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1810,12 +1810,12 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           {
             if (!supports_escape(signature, 'b') || !supports_escape(signature, 'w') || !supports_modifier(signature, '<'))
               throw regex_error(regex_error::invalid_anchor, pattern, pos);
-            // translate \< to \b(?<=\w)
-            regex.append(&pattern[loc], pos - loc - 1).append("\\b(?<=\\w)");
+            // translate \> to \b(?<=\w)
+            regex.append(&pattern[loc], pos - loc).append("\\b(?<=\\w)");
           }
           else
           {
-            regex.append(&pattern[loc], pos - loc).append("\\<");
+            regex.append(&pattern[loc], pos - loc).append("\\>");
           }
           pos += 6;
           loc = pos + 1;
-- 
2.43.0


From 574c4d0548926249d0f22a8d3e46211ae4c830ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 27/44] fix: the regex parser never reads behind the end of a
 malformed regex

---
 lib/pattern.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 12b8eee..4b67c4b 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -398,6 +398,11 @@ void Pattern::parse(
             while ((c = at(++end)) != '\0')
               if (c == opt_.e && at(end + 1) == 'E')
                 break;
+            if (c == '\0')
+            {
+              end = loc;
+              break;
+            }
           }
         }
         ++end;
@@ -999,7 +1004,8 @@ void Pattern::parse4(
             opt_.x = active;
           else if (c != 'i' && c != 'm' && c != 's')
             error(regex_error::invalid_modifier, loc);
-          c = at(++loc);
+          if (c != '\0')
+            c = at(++loc);
         } while (c != '\0' && c != ':' && c != ')');
         if (c != '\0')
           ++loc;
@@ -1074,7 +1080,7 @@ void Pattern::parse4(
         if (c_loc != std::string::npos && at(static_cast<Location>(c_loc + 1)) == ']')
           loc = static_cast<Location>(c_loc + 1);
       }
-      else if (c == opt_.e && !opt_.b)
+      else if (c == opt_.e && !opt_.b && at(loc + 1) != '\0')
       {
         ++loc;
       }
@@ -1083,7 +1089,8 @@ void Pattern::parse4(
     }
     if (c == '\0')
       error(regex_error::mismatched_brackets, loc);
-    ++loc;
+    else
+      ++loc;
   }
   else if ((c == '"' && opt_.q) || escape_at(loc) == 'Q')
   {
@@ -1159,7 +1166,11 @@ void Pattern::parse4(
 Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
 {
   Char c = at(++loc);
-  if (c == '0')
+  if (c == '\0')
+  {
+    error(regex_error::invalid_escape, loc);
+  }
+  else if (c == '0')
   {
     c = 0;
     int d = at(++loc);
@@ -1212,8 +1223,12 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
   }
   else if (c == 'c')
   {
-    c = at(++loc) % 32;
-    ++loc;
+    c = at(++loc);
+    if (c == '\0')
+      error(regex_error::invalid_escape, loc);
+    else
+      ++loc;
+    c %= 32;
   }
   else if (c == 'e')
   {
@@ -1240,12 +1255,16 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
         if (eq_at(loc, posix_class[i]))
           break;
       if (i < 14)
+      {
         posix(i, *chars);
+        loc += static_cast<Location>(strlen(posix_class[i]));
+      }
       else
+      {
         error(regex_error::invalid_class, loc);
+      }
       if (c == 'P')
         flip(*chars);
-      loc += static_cast<Location>(strlen(posix_class[i]));
       if (at(loc) == '}')
         ++loc;
       else
@@ -1253,8 +1272,8 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
     }
     else
     {
-      while ((c = at(++loc)) != '\0' && c != '}')
-        continue;
+      while ((c = at(loc)) != '\0' && c != '}')
+        ++loc;
       if (c == '}')
         ++loc;
       else
-- 
2.43.0


From 49035df56f06a68f965429a9d895431cb90ecb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 28/44] fix: a basic regex with a macro \{name\} converts
 instead of running behind the regex

---
 lib/convert.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index fd63152..4282ab3 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1937,7 +1937,9 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
             {
               regex.append(par).append(subregex).push_back(')');
             }
-            loc = pos + (pos < len && pattern[pos] == '\\') + 1;
+            if (pos < len && pattern[pos] == '\\')
+              ++pos;
+            loc = pos + 1;
             anc = false;
             beg = false;
           }
-- 
2.43.0


From 0086fbab71b4018d348a5c6c77302611b3e2fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 29/44] fix: scanning a string alternative stays within the
 regex when the escape character is E

---
 lib/pattern.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 4b67c4b..e87d895 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -396,8 +396,13 @@ void Pattern::parse(
           if (c == 'Q')
           {
             while ((c = at(++end)) != '\0')
+            {
               if (c == opt_.e && at(end + 1) == 'E')
+              {
+                ++end;
                 break;
+              }
+            }
             if (c == '\0')
             {
               end = loc;
@@ -430,7 +435,7 @@ void Pattern::parse(
             ++loc;
             continue;
           }
-          if (!quote)
+          if (!quote && loc < end)
           {
             static const char abtnvfr[] = "abtnvfr";
             c = at(loc++);
-- 
2.43.0


From dbcf66bb048d777e95ac18459d416021f7e64954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:27 +0000
Subject: [PATCH 30/44] fix: the character after a line continuation in a regex
 is converted, none is added at the end

---
 lib/convert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 4282ab3..621ce94 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1157,7 +1157,8 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
       ++pos;
     while (pos < len && ((c = pattern[pos]) == ' ' || c == '\t'))
       ++pos;
-    loc = pos;
+    // the character after the continuation is still to be converted
+    loc = pos--;
   }
   else if (c == 'c')
   {
-- 
2.43.0


From 8210a06a19fb2c6b163789a4a84922042a44049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:08 +0000
Subject: [PATCH 31/44] fix: a lex macro class from which everything is
 subtracted is an empty class error, not a crash

---
 lib/convert.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 621ce94..53531ab 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1932,6 +1932,8 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
               if (subpos + 1 < subregex.size())
                 throw regex_error(regex_error::invalid_class_range, pattern, loc);
               extend_list(pattern, len, pos, flags, mod, ranges, macros);
+              if (ranges.empty())
+                throw regex_error(regex_error::empty_class, pattern, loc);
               regex.append(convert_ranges(pattern, pos, ranges, mod, flags, signature, par));
             }
             else
-- 
2.43.0


From 0fd19bc1916e0db4214685d8921e5b33108dd828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:08 +0000
Subject: [PATCH 32/44] fix: popping indent stops when none were pushed has no
 effect

---
 include/reflex/matcher.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index f4d5d85..82fbdf5 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -263,8 +263,11 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   /// Pop indent stops.
   void pop_stops()
   {
-    stk_.top().swap(tab_);
-    stk_.pop();
+    if (!stk_.empty())
+    {
+      stk_.top().swap(tab_);
+      stk_.pop();
+    }
   }
   /// FSM code INIT.
   inline void FSM_INIT(int& c1)
-- 
2.43.0


From 77d98a82e1206fb690ce2a246be5f487a537a44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:08 +0000
Subject: [PATCH 33/44] fix: the error for an unclosed scope does not name a
 condition of an empty scope

---
 src/reflex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index b9b29c2..ab41b3d 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1632,7 +1632,7 @@ void Reflex::parse_section_2()
         {
           scopes.push(starts);
           if (!get_line())
-            error("EOF encountered inside scope ", conditions.at(*starts.begin()).c_str());
+            error("EOF encountered inside scope ", starts.empty() ? "" : conditions.at(*starts.begin()).c_str());
           init = true;
         }
         else
@@ -1675,7 +1675,7 @@ void Reflex::parse_section_2()
   }
   if (!scopes.empty())
   {
-    const char *name = conditions.at(*scopes.top().begin()).c_str();
+    const char *name = scopes.top().empty() ? "" : conditions.at(*scopes.top().begin()).c_str();
     if (in.eof())
       error("EOF encountered inside scope ", name);
     else
-- 
2.43.0


From e5b381dad2363fccde7badb01c53a7854234694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 34/44] fix: the undent anchor \k no longer overrides indent
 and dedent matches

The interpreted DFA took the \k jump whenever a mark was set, also when \i or
\j had matched or when the indentation was unchanged, unlike generated code
(FSM_META_UND), which requires mrk_ && !nodent() and is reached only when the
earlier anchors did not match.
---
 fuzzy/fuzzymatcher.h     | 15 +++++++++------
 include/reflex/matcher.h | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 35777bc..5f74e46 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -453,14 +453,17 @@ redo:
                     continue;
                   case Pattern::META_UND - Pattern::META_MIN:
                     DBGLOG("UND");
-                    if (mrk_)
+                    if (jump == Pattern::Const::IMAX)
                     {
-                      jump = Pattern::index_of(opcode);
-                      if (jump == Pattern::Const::LONG)
-                        jump = Pattern::long_index_of(*++pc);
+                      if (mrk_ && !nodent())
+                      {
+                        jump = Pattern::index_of(opcode);
+                        if (jump == Pattern::Const::LONG)
+                          jump = Pattern::long_index_of(*++pc);
+                      }
+                      mrk_ = false;
+                      ded_ = 0;
                     }
-                    mrk_ = false;
-                    ded_ = 0;
                     opcode = *++pc;
                     continue;
 #endif
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 82fbdf5..61f16dd 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -594,14 +594,17 @@ redo:
                   continue;
                 case Pattern::META_UND - Pattern::META_MIN:
                   DBGLOG("UND");
-                  if (mrk_)
+                  if (jump == Pattern::Const::IMAX)
                   {
-                    jump = Pattern::index_of(opcode);
-                    if (jump == Pattern::Const::LONG)
-                      jump = Pattern::long_index_of(*++pc);
+                    if (mrk_ && !nodent())
+                    {
+                      jump = Pattern::index_of(opcode);
+                      if (jump == Pattern::Const::LONG)
+                        jump = Pattern::long_index_of(*++pc);
+                    }
+                    mrk_ = false;
+                    ded_ = 0;
                   }
-                  mrk_ = false;
-                  ded_ = 0;
                   opcode = *++pc;
                   continue;
 #endif
-- 
2.43.0


From 9ef7718527918e8469d9b1bf557f8af0cf4513b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:00 +0000
Subject: [PATCH 35/44] fix: convert and read bytes above 7F as unsigned
 characters

A plain char widened to int is negative for bytes above 7F: bracket lists
dropped such bytes or refused ranges of them ([a\xFF], [\x80-\xFF]), \xFF
was confused with -1 and the escape character option e= could not be such
a byte; std::isalpha() etc. must not be called with a negative value.
---
 lib/convert.cpp | 24 ++++++++++++------------
 lib/pattern.cpp |  6 +++---
 src/reflex.cpp  | 48 ++++++++++++++++++++++++------------------------
 3 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 53531ab..72bdf5b 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -284,7 +284,7 @@ static int convert_hex(const char *pattern, size_t len, size_t& pos, convert_fla
     size_t n = pos + 3;
     if (c == 'u')
       n += 2;
-    while (k < n && k < len && std::isxdigit(c = pattern[k++]))
+    while (k < n && k < len && std::isxdigit(static_cast<unsigned char>(c = pattern[k++])))
       *s++ = c;
     *s = '\0';
     --k;
@@ -338,7 +338,7 @@ static const std::string& expand(const std::map<std::string,std::string> *macros
 {
   // lookup {name} and expand without converting
   size_t k = pos++;
-  while (pos < len && (std::isalnum(pattern[pos]) || pattern[pos] == '_' || (pattern[pos] & 0x80) == 0x80))
+  while (pos < len && (std::isalnum(static_cast<unsigned char>(pattern[pos])) || pattern[pos] == '_' || (pattern[pos] & 0x80) == 0x80))
     ++pos;
   if (pos >= len || (pattern[pos] == '\\' ? pattern[pos + 1] != '}' : pattern[pos] != '}'))
     throw regex_error(regex_error::undefined_name, pattern, pos);
@@ -527,7 +527,7 @@ static void insert_escape_class(const char *pattern, size_t pos, const std::map<
     translated = Posix::range(name);
   if (translated == NULL)
     throw regex_error(regex_error::invalid_class, pattern, pos);
-  if (std::islower(c))
+  if (std::islower(static_cast<unsigned char>(c)))
   {
     for (const int *wc = translated; wc[1] != 0; wc += 2)
       ranges.insert(wc[0], wc[1]);
@@ -574,7 +574,7 @@ static void insert_escape_class(const char *pattern, size_t pos, const std::map<
 
 static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges)
 {
-  int c = pattern[pos];
+  int c = static_cast<unsigned char>(pattern[pos]);
   if (c == 'c')
   {
     ++pos;
@@ -712,7 +712,7 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
     ranges.erase('\n');
     return -1;
   }
-  else if (std::isalpha(c))
+  else if (std::isalpha(static_cast<unsigned char>(c)))
   {
     const char *s = std::strchr(regex_abtnvfr, c);
     if (s == NULL)
@@ -909,7 +909,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
   }
   while (pos + 1 < len)
   {
-    int c = pattern[pos];
+    int c = static_cast<unsigned char>(pattern[pos]);
     if (c == '\\')
     {
       ++pos;
@@ -1032,7 +1032,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
   else if (std::strchr(regex_meta, c) == NULL)
   {
     char buf[3] = { '^', static_cast<char>(lowercase(c)), '\0' };
-    bool invert = std::isupper(c) != 0;
+    bool invert = std::isupper(static_cast<unsigned char>(c)) != 0;
     const char *name = buf + !invert;
     std::string translated;
     int esc = hex_or_octal_escape(signature);
@@ -1426,7 +1426,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
       mods.push_back('m');
     size_t k = 2;
     bool invert = false;
-    while (k < len && (pattern[k] == '-' || std::isalpha(pattern[k])))
+    while (k < len && (pattern[k] == '-' || std::isalpha(static_cast<unsigned char>(pattern[k]))))
     {
       if (pattern[k] == '-')
       {
@@ -1637,7 +1637,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                 std::string mods, unmods;
                 size_t k = pos;
                 bool invert = false;
-                while (k < len && (pattern[k] == '-' || std::isalnum(pattern[k])))
+                while (k < len && (pattern[k] == '-' || std::isalnum(static_cast<unsigned char>(pattern[k]))))
                 {
                   if (pattern[k] == '-')
                   {
@@ -1916,7 +1916,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         }
         else
         {
-          if (macros != NULL && pos + 1 < len && (std::isalpha(pattern[pos + 1]) || pattern[pos + 1] == '_' || pattern[pos + 1] == '$' || (pattern[pos + 1] & 0x80) == 0x80))
+          if (macros != NULL && pos + 1 < len && (std::isalpha(static_cast<unsigned char>(pattern[pos + 1])) || pattern[pos + 1] == '_' || pattern[pos + 1] == '$' || (pattern[pos + 1] & 0x80) == 0x80))
           {
             // if macros are provided: lookup {name} and expand without converting
             regex.append(&pattern[loc], pos - loc);
@@ -1953,7 +1953,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
             if (beg)
               throw regex_error(regex_error::empty_expression, pattern, pos);
             ++pos;
-            if (pos >= len || !std::isdigit(pattern[pos]))
+            if (pos >= len || !std::isdigit(static_cast<unsigned char>(pattern[pos])))
               throw regex_error(regex_error::invalid_repeat, pattern, pos);
             char *s;
             size_t n = static_cast<size_t>(std::strtoul(&pattern[pos], &s, 10));
@@ -2105,7 +2105,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         beg = false;
         break;
       default:
-        if (std::isalpha(pattern[pos]))
+        if (std::isalpha(static_cast<unsigned char>(pattern[pos])))
         {
           if (is_modified(mod, 'i'))
           {
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index e87d895..9631c16 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -249,7 +249,7 @@ void Pattern::init_options(const char *options)
           opt_.b = true;
           break;
         case 'e':
-          opt_.e = (*(s += (s[1] == '=') + 1) == ';' || *s == '\0' ? 256 : *s++);
+          opt_.e = (*(s += (s[1] == '=') + 1) == ';' || *s == '\0' ? 256 : static_cast<unsigned char>(*s++));
           --s;
           break;
         case 'p':
@@ -282,7 +282,7 @@ void Pattern::init_options(const char *options)
         case 'z':
             for (const char *t = s += (s[1] == '='); *s != ';' && *s != '\0'; ++t)
             {
-              if (std::isspace(*t) || *t == ';' || *t == '\0')
+              if (std::isspace(static_cast<unsigned char>(*t)) || *t == ';' || *t == '\0')
               {
                 if (t > s + 1)
                   opt_.z = std::string(s + 1, t - s - 1);
@@ -295,7 +295,7 @@ void Pattern::init_options(const char *options)
         case 'n':
           for (const char *t = s += (s[1] == '='); *s != ';' && *s != '\0'; ++t)
           {
-            if (*t == ',' || std::isspace(*t) || *t == ';' || *t == '\0')
+            if (*t == ',' || std::isspace(static_cast<unsigned char>(*t)) || *t == ';' || *t == '\0')
             {
               if (t > s + 1)
               {
diff --git a/src/reflex.cpp b/src/reflex.cpp
index ab41b3d..58f47f2 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -274,7 +274,7 @@ static const Reflex::Library library_table[] = {
 inline int lower(int c)
   /// @returns lower case char
 {
-  return std::isalpha(c) ? (c | 0x20) : c;
+  return std::isalpha(static_cast<unsigned char>(c)) ? (c | 0x20) : c;
 }
 
 /// Add file extension if not present, modifies the string argument and returns a copy
@@ -765,7 +765,7 @@ bool Reflex::get_line()
       line.push_back(c);
   }
   linelen = line.length();
-  while (linelen > 0 && std::isspace(line.at(linelen - 1)))
+  while (linelen > 0 && std::isspace(static_cast<unsigned char>(line.at(linelen - 1))))
     --linelen;
   line.resize(linelen);
   if (in.eof() && line.empty())
@@ -824,7 +824,7 @@ bool Reflex::is(const char *s)
 bool Reflex::ins(const char *s)
 {
   size_t pos = 0;
-  while (pos < linelen && std::isspace(line.at(pos)))
+  while (pos < linelen && std::isspace(static_cast<unsigned char>(line.at(pos))))
     ++pos;
   while (pos < linelen && *s != '\0' && lower(line.at(pos)) == *s)
   {
@@ -844,12 +844,12 @@ bool Reflex::br(size_t pos, const char *s)
     while (++pos < linelen && *s != '\0' && lower(line.at(pos)) == *s++)
       continue;
   }
-  while (pos < linelen && std::isspace(line.at(pos)))
+  while (pos < linelen && std::isspace(static_cast<unsigned char>(line.at(pos))))
     ++pos;
   if (pos >= linelen || line.at(pos) != '{')
     return false;
   ++pos;
-  while (pos < linelen && std::isspace(line.at(pos)))
+  while (pos < linelen && std::isspace(static_cast<unsigned char>(line.at(pos))))
     ++pos;
   if (pos >= linelen)
     return true;
@@ -869,9 +869,9 @@ bool Reflex::as(size_t& pos, const char *s)
 /// Advance pos over whitespace, returns true if whitespace was found
 bool Reflex::ws(size_t& pos)
 {
-  if (pos >= linelen || (pos > 0 && !std::isspace(line.at(pos))))
+  if (pos >= linelen || (pos > 0 && !std::isspace(static_cast<unsigned char>(line.at(pos)))))
     return false;
-  while (pos < linelen && std::isspace(line.at(pos)))
+  while (pos < linelen && std::isspace(static_cast<unsigned char>(line.at(pos))))
     ++pos;
   return true;
 }
@@ -890,7 +890,7 @@ bool Reflex::eq(size_t& pos)
 /// Advance pos to end of line while skipping whitespace, return true if end of line
 bool Reflex::nl(size_t& pos)
 {
-  while (pos < linelen && std::isspace(line.at(pos)))
+  while (pos < linelen && std::isspace(static_cast<unsigned char>(line.at(pos))))
     ++pos;
   return pos >= linelen;
 }
@@ -898,7 +898,7 @@ bool Reflex::nl(size_t& pos)
 /// Check if current line starts a block of code or a comment
 bool Reflex::is_code()
 {
-  return linelen > 0 && ((std::isspace(line.at(0)) && options["freespace"].empty()) || is("%{") || is("//") || is("/*"));
+  return linelen > 0 && ((std::isspace(static_cast<unsigned char>(line.at(0))) && options["freespace"].empty()) || is("%{") || is("//") || is("/*"));
 }
 
 /// Check if current line starts a block of %top code
@@ -922,12 +922,12 @@ bool Reflex::is_initcode()
 /// Advance pos over name (letters, digits, ., -, _ or any non-ASCII character > U+007F), return name
 std::string Reflex::get_name(size_t& pos)
 {
-  if (pos >= linelen || (!std::isalnum(line.at(pos)) && line.at(pos) != '_' && (line.at(pos) & 0x80) != 0x80))
+  if (pos >= linelen || (!std::isalnum(static_cast<unsigned char>(line.at(pos))) && line.at(pos) != '_' && (line.at(pos) & 0x80) != 0x80))
     return "";
   size_t loc = pos++;
   while (pos < linelen)
   {
-    if (!std::isalnum(line.at(pos)) && line.at(pos) != '_' && line.at(pos) != '-' && line.at(pos) != '.' && (line.at(pos) & 0x80) != 0x80)
+    if (!std::isalnum(static_cast<unsigned char>(line.at(pos))) && line.at(pos) != '_' && line.at(pos) != '-' && line.at(pos) != '.' && (line.at(pos) & 0x80) != 0x80)
       break;
     ++pos;
   }
@@ -942,7 +942,7 @@ std::string Reflex::get_namespace(size_t& pos)
   {
     if (line.at(pos) == ':' && pos + 1 < linelen && line.at(pos + 1) == ':') // parse ::
       ++pos;
-    else if (!std::isalnum(line.at(pos)) && line.at(pos) != '_' && line.at(pos) != '-' && line.at(pos) != '.' && (line.at(pos) & 0x80) != 0x80)
+    else if (!std::isalnum(static_cast<unsigned char>(line.at(pos))) && line.at(pos) != '_' && line.at(pos) != '-' && line.at(pos) != '.' && (line.at(pos) & 0x80) != 0x80)
       break;
     ++pos;
   }
@@ -952,14 +952,14 @@ std::string Reflex::get_namespace(size_t& pos)
 /// Advance pos over option name (letters, digits, +/hyphen/underscore), return name
 std::string Reflex::get_option(size_t& pos)
 {
-  if (pos >= linelen || !std::isalnum(line.at(pos)))
+  if (pos >= linelen || !std::isalnum(static_cast<unsigned char>(line.at(pos))))
     return "";
   size_t loc = pos++;
   while (pos < linelen)
   {
     if (line.at(pos) == '-' || line.at(pos) == '+') // normalize - and + to _
       line[pos] = '_';
-    else if (!std::isalnum(line.at(pos)) && line.at(pos) != '_')
+    else if (!std::isalnum(static_cast<unsigned char>(line.at(pos))) && line.at(pos) != '_')
       break;
     ++pos;
   }
@@ -969,14 +969,14 @@ std::string Reflex::get_option(size_t& pos)
 /// Advance pos over start condition name (an ASCII C++ identifier or C++11 Unicode identifier), return name
 std::string Reflex::get_start(size_t& pos)
 {
-  if (pos >= linelen || (!std::isalpha(line.at(pos)) && line.at(pos) != '_' && (line.at(pos) & 0x80) != 0x80))
+  if (pos >= linelen || (!std::isalpha(static_cast<unsigned char>(line.at(pos))) && line.at(pos) != '_' && (line.at(pos) & 0x80) != 0x80))
     return "";
   size_t loc = pos++;
   while (pos < linelen)
   {
     if (line.at(pos) == '-') // normalize - to _
       line[pos] = '_';
-    else if (!std::isalnum(line.at(pos)) && line.at(pos) != '_' && (line.at(pos) & 0x80) != 0x80)
+    else if (!std::isalnum(static_cast<unsigned char>(line.at(pos))) && line.at(pos) != '_' && (line.at(pos) & 0x80) != 0x80)
       break;
     ++pos;
   }
@@ -1014,7 +1014,7 @@ bool Reflex::get_pattern(size_t& pos, std::string& pattern, std::string& regex)
     if (fsp)
     {
       if (nsp < pos && (
-            (c == '{' && (pos + 1 == linelen || line.at(pos + 1) == '}' || std::isspace(line.at(pos + 1)))) ||
+            (c == '{' && (pos + 1 == linelen || line.at(pos + 1) == '}' || std::isspace(static_cast<unsigned char>(line.at(pos + 1))))) ||
             (c == '|' && pos + 1 == linelen) ||
             (c == '/' && pos + 1 < linelen && (line.at(pos + 1) == '/' || line.at(pos + 1) == '*'))))
       {
@@ -1022,7 +1022,7 @@ bool Reflex::get_pattern(size_t& pos, std::string& pattern, std::string& regex)
         break;
       }
     }
-    else if (std::isspace(c))
+    else if (std::isspace(static_cast<unsigned char>(c)))
     {
       break;
     }
@@ -1101,7 +1101,7 @@ bool Reflex::get_pattern(size_t& pos, std::string& pattern, std::string& regex)
         ++pos;
       }
     }
-    if (fsp && !std::isspace(c))
+    if (fsp && !std::isspace(static_cast<unsigned char>(c)))
       nsp = pos;
   }
   pattern.append(line.substr(loc, pos - loc));
@@ -1197,7 +1197,7 @@ std::string Reflex::get_code(size_t& pos)
         }
         else
         {
-          if (blk == 0 && lev == 0 && linelen > 0 && (!std::isspace(line.at(0)) || !options["freespace"].empty()))
+          if (blk == 0 && lev == 0 && linelen > 0 && (!std::isspace(static_cast<unsigned char>(line.at(0))) || !options["freespace"].empty()))
             return code;
           code.append("\n").append(line);
         }
@@ -1270,7 +1270,7 @@ std::string Reflex::upper_name(const std::string& s)
   std::string t;
   for (size_t i = 0; i < s.size(); ++i)
   {
-    if (std::isalnum(s.at(i)))
+    if (std::isalnum(static_cast<unsigned char>(s.at(i))))
       t.push_back(std::toupper(s.at(i)));
     else
       t.push_back('_');
@@ -1295,11 +1295,11 @@ std::string Reflex::param_args(const std::string& params)
     if (i <= from)
       i = to;
     while (--i > from)
-      if (!std::isspace(params.at(i)))
+      if (!std::isspace(static_cast<unsigned char>(params.at(i))))
         break;
     size_t j = i++;
     while (--i > from)
-      if (!std::isalnum(params.at(i)) && params.at(i) != '_')
+      if (!std::isalnum(static_cast<unsigned char>(params.at(i))) && params.at(i) != '_')
         break;
     if (!args.empty())
       args.append(", ");
@@ -1313,7 +1313,7 @@ std::string Reflex::param_args(const std::string& params)
 bool Reflex::get_starts(size_t& pos, Starts& starts)
 {
   pos = 0;
-  if (linelen > 1 && line.at(0) == '<' && (std::isalpha(line.at(1)) || line.at(1) == '_' || line.at(1) == '*' || (line.at(1) & 0x80) == 0x80 || line.at(1) == '^') && line.find('>') != std::string::npos)
+  if (linelen > 1 && line.at(0) == '<' && (std::isalpha(static_cast<unsigned char>(line.at(1))) || line.at(1) == '_' || line.at(1) == '*' || (line.at(1) & 0x80) == 0x80 || line.at(1) == '^') && line.find('>') != std::string::npos)
   {
     do
     {
-- 
2.43.0


From f357e9b53b8a452fda50b7da6823f5334732ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:00 +0000
Subject: [PATCH 36/44] fix: do not swallow the character after a short \x or
 \u escape

convert_hex() advanced past the first non-hex character of \x4g, then
stepped back to it, so that the caller skipped it.
---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 72bdf5b..3efebbc 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -284,8 +284,8 @@ static int convert_hex(const char *pattern, size_t len, size_t& pos, convert_fla
     size_t n = pos + 3;
     if (c == 'u')
       n += 2;
-    while (k < n && k < len && std::isxdigit(static_cast<unsigned char>(c = pattern[k++])))
-      *s++ = c;
+    while (k < n && k < len && std::isxdigit(static_cast<unsigned char>(pattern[k])))
+      *s++ = pattern[k++];
     *s = '\0';
     --k;
   }
-- 
2.43.0


From 8219877f8168550d5f72624ac789eec8e2474f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:08 +0000
Subject: [PATCH 37/44] fix: report output files that cannot be opened or
 written

The generator ignored tables and graph files that could not be opened, and
checked its output streams before the final flush, so that reflex exited
with success when the header, tables, graph or pattern file was incomplete.
---
 lib/pattern.cpp | 31 +++++++++++++++++++++++++------
 src/reflex.cpp  | 20 +++++++++++++++-----
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 9631c16..02d12af 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -87,6 +87,16 @@ inline int fopen_s(FILE **file, const char *name, const char *mode) { return ::f
 inline int fopen_s(FILE **file, const char *name, const char *mode) { return (*file = ::fopen(name, mode)) ? 0 : errno; }
 #endif
 
+/// Close an exported file (or flush stdout), throws an error when the file could not be written.
+static void close_export(FILE *file, const std::string& filename)
+{
+  bool failed = ::ferror(file) != 0;
+  if ((file == stdout ? ::fflush(file) : ::fclose(file)) != 0)
+    failed = true;
+  if (failed)
+    throw std::runtime_error("error in writing " + filename);
+}
+
 static void print_char(FILE *file, int c, bool h = false)
 {
   if (c >= '\a' && c <= '\r')
@@ -2700,8 +2710,11 @@ void Pattern::gencode_dfa(const DFA::State *start) const
         if (opt_.p)
           write_predictor(file);
         write_namespace_close(file);
-        if (file != stdout)
-          ::fclose(file);
+        close_export(file, filename);
+      }
+      else
+      {
+        throw std::runtime_error("cannot open file " + filename);
       }
     }
   }
@@ -2944,8 +2957,11 @@ void Pattern::export_dfa(const DFA::State *start) const
             ::fprintf(file, "\t\tN%p -> R%p;\n\t\tR%p [peripheries=0,label=\"redo\"];\n", (void*)state, (void*)state, (void*)state);
         }
         ::fprintf(file, "}\n");
-        if (file != stdout)
-          ::fclose(file);
+        close_export(file, filename);
+      }
+      else
+      {
+        throw std::runtime_error("cannot open file " + filename);
       }
     }
   }
@@ -3045,8 +3061,11 @@ void Pattern::export_code() const
         if (opt_.p)
           write_predictor(file);
         write_namespace_close(file);
-        if (file != stdout)
-          ::fclose(file);
+        close_export(file, filename);
+      }
+      else
+      {
+        throw std::runtime_error("cannot open file " + filename);
       }
     }
   }
diff --git a/src/reflex.cpp b/src/reflex.cpp
index 58f47f2..61e3c48 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1791,12 +1791,14 @@ void Reflex::write()
   write_lexer();
   write_main();
   write_section_3();
-  if (!out->good())
-    abort("error in writing");
   if (options["matcher"].empty() && (!options["full"].empty() || !options["fast"].empty()) && options["tables_file"].empty() && options["stdout"].empty())
     write_banner("TABLES");
   if (ofs.is_open())
     ofs.close();
+  else
+    out->flush();
+  if (!out->good())
+    abort("error in writing");
   stats();
   if (!options["regexp_file"].empty())
   {
@@ -1831,13 +1833,17 @@ void Reflex::write()
       }
       write_regex(NULL, patterns[start]);
       *out << std::endl;
-      if (!ofs.good())
-        abort("error in writing");
       if (!append && ofs.is_open())
         ofs.close();
+      if (!out->good())
+        abort("error in writing");
     }
     if (append && ofs.is_open())
+    {
       ofs.close();
+      if (!ofs.good())
+        abort("error in writing");
+    }
   }
   if (!options["header_file"].empty())
   {
@@ -1987,9 +1993,9 @@ void Reflex::write()
       }
     }
     *out << "\n#endif\n";
+    ofs.close();
     if (!out->good())
       abort("error in writing");
-    ofs.close();
   }
 }
 
@@ -3311,6 +3317,10 @@ void Reflex::stats()
       {
         abort("malformed regular expression\n", e.what());
       }
+      catch (std::runtime_error& e)
+      {
+        abort(e.what());
+      }
     }
     if (!options["verbose"].empty())
       std::cout << std::endl;
-- 
2.43.0


From 86917527ec2ba88502adbf27e34875dd1a531ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:31 +0000
Subject: [PATCH 38/44] fix: reject repeats, lookahead and sub-pattern counts
 over the limit instead of wrapping around

---
 lib/pattern.cpp | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 02d12af..a9946ef 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -797,9 +797,12 @@ void Pattern::parse3(
       {
         if (std::isdigit(at(loc + 1)))
         {
-          m = 0;
+          k = 0;
           for (Location i = 0; i < 7 && std::isdigit(c = at(++loc)); ++i)
-            m = 10 * m + (c - '0');
+            k = 10 * k + (c - '0');
+          if (k > Position::MAXITER)
+            error(regex_error::exceeds_limits, loc);
+          m = static_cast<Iter>(k);
         }
         else
         {
@@ -850,7 +853,7 @@ void Pattern::parse3(
         }
         else if (m > 0)
         {
-          if (iter * m > Position::MAXITER)
+          if (static_cast<uint32_t>(iter) * m > Position::MAXITER)
             error(regex_error::exceeds_limits, loc);
           // update followpos by virtually repeating sub-regex m-1 times
           Follow followpos1;
@@ -1725,23 +1728,20 @@ void Pattern::compile_transition(
       bool literal = is_modified('q', modifiers, loc);
       if (c == '(' && !literal)
       {
-        Lookahead n = 0;
+        size_t n = 0;
         DBGLOG("LOOKAHEAD HEAD");
         for (Map::const_iterator i = lookahead.begin(); i != lookahead.end(); ++i)
         {
           Locations::const_iterator j = i->second.find(loc);
-          DBGLOGN("%d %d (%d) %u", state->accept, i->first, j != i->second.end(), n);
+          DBGLOGN("%d %d (%d) %zu", state->accept, i->first, j != i->second.end(), n);
           if (j != i->second.end())
           {
-            Lookahead l = n + static_cast<Lookahead>(std::distance(i->second.begin(), j));
-            if (l < n)
+            size_t l = n + std::distance(i->second.begin(), j);
+            if (l > 0xFFFF)
               error(regex_error::exceeds_limits, loc);
-            state->heads.insert(l);
+            state->heads.insert(static_cast<Lookahead>(l));
           }
-          Lookahead k = n;
-          n += static_cast<Lookahead>(i->second.size());
-          if (n < k)
-            error(regex_error::exceeds_limits, loc);
+          n += i->second.size();
         }
       }
       else if (c == ')' && !literal)
@@ -1750,23 +1750,20 @@ void Pattern::compile_transition(
         if (state->accept > 0)
         */
         {
-          Lookahead n = 0;
+          size_t n = 0;
           DBGLOG("LOOKAHEAD TAIL");
           for (Map::const_iterator i = lookahead.begin(); i != lookahead.end(); ++i)
           {
             Locations::const_iterator j = i->second.find(loc);
-            DBGLOGN("%d %d (%d) %u", state->accept, i->first, j != i->second.end(), n);
+            DBGLOGN("%d %d (%d) %zu", state->accept, i->first, j != i->second.end(), n);
             if (j != i->second.end() /* CHECKED algorithmic options: 7/18 && state->accept == i->first */ ) // only add lookstop when part of the proper accept state
             {
-              Lookahead l = n + static_cast<Lookahead>(std::distance(i->second.begin(), j));
-              if (l < n)
+              size_t l = n + std::distance(i->second.begin(), j);
+              if (l > 0xFFFF)
                 error(regex_error::exceeds_limits, loc);
-              state->tails.insert(l);
+              state->tails.insert(static_cast<Lookahead>(l));
             }
-            Lookahead k = n;
-            n += static_cast<Lookahead>(i->second.size());
-            if (n < k)
-              error(regex_error::exceeds_limits, loc);
+            n += i->second.size();
           }
         }
       }
@@ -2176,7 +2173,7 @@ void Pattern::encode_dfa(DFA::State *start)
   for (DFA::State *state = start; state; state = state->next)
   {
     if (state->accept > Const::AMAX)
-      state->accept = Const::AMAX;
+      throw regex_error(regex_error::exceeds_limits, rex_, rex_.size());
     state->first = state->index = nop_;
 #if WITH_COMPACT_DFA == -1
     Char hi = 0x00;
-- 
2.43.0


From 774b5d9d530cab603b6a8a3b046a4a62b1f4c0f1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:14:21 +0000
Subject: [PATCH 39/44] fix: Bits assignment releases the bits it replaces and
 survives assigning itself

---
 include/reflex/bits.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index f3b231d..e3a5ffd 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -155,6 +155,9 @@ class Bits {
   { }
   /// Copy constructor
   Bits(const Bits& bits) ///< bits to copy
+    :
+      len_(0),
+      vec_(NULL)
   {
     operator=(bits);
   }
@@ -186,11 +189,16 @@ class Bits {
   Bits& operator=(const Bits& bits) ///< bits to copy
     /// @returns reference to this object.
   {
-    len_ = bits.len_;
-    if (len_)
-      std::memcpy(vec_ = new uint64_t[len_], bits.vec_, len_ << 3);
-    else
-      vec_ = NULL;
+    if (this != &bits)
+    {
+      uint64_t *p = NULL;
+      if (bits.len_)
+        std::memcpy(p = new uint64_t[bits.len_], bits.vec_, bits.len_ << 3);
+      if (vec_)
+        delete[] vec_;
+      len_ = bits.len_;
+      vec_ = p;
+    }
     return *this;
   }
   /// Reference n'th bit in the bit vector to assign a value to that bit.
-- 
2.43.0


From fc52f3c7335c8d32ff2f77298a36b378f43387d9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:14:21 +0000
Subject: [PATCH 40/44] fix: assigning a matcher or a new regex releases the
 pattern it owned, and a pattern that throws leaves the old one

---
 include/reflex/absmatcher.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index c6913ab..7ac2802 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1642,8 +1642,7 @@ class PatternMatcher : public AbstractMatcher {
     in = matcher.in;
     reset();
     opt_ = matcher.opt_;
-    pat_ = matcher.pat_,
-    own_ = false;
+    PatternMatcher::pattern(matcher.pat_);
     return *this;
   }
   /// Set the pattern to use with this matcher as a shared pointer to another matcher pattern.
@@ -1686,9 +1685,10 @@ class PatternMatcher : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("PatternMatcher::pattern(\"%s\")", pattern);
+    const Pattern *newpat = new Pattern(pattern); // may throw, then keep the current pattern
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = newpat;
     own_ = true;
     return *this;
   }
@@ -1697,9 +1697,10 @@ class PatternMatcher : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("PatternMatcher::pattern(\"%s\")", pattern.c_str());
+    const Pattern *newpat = new Pattern(pattern); // may throw, then keep the current pattern
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = newpat;
     own_ = true;
     return *this;
   }
@@ -1795,8 +1796,7 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     in = matcher.in;
     reset();
     opt_ = matcher.opt_;
-    pat_ = matcher.pat_,
-    own_ = false;
+    PatternMatcher::pattern(matcher.pat_);
     return *this;
   }
   /// Set the pattern to use with this matcher as a shared pointer to another matcher pattern.
@@ -1825,9 +1825,10 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("Patternatcher::pattern(\"%s\")", pattern);
+    const Pattern *newpat = new Pattern(pattern); // before deleting the current pattern, which the argument may refer to
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = newpat;
     own_ = true;
     return *this;
   }
@@ -1836,9 +1837,10 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("Patternatcher::pattern(\"%s\")", pattern.c_str());
+    const Pattern *newpat = new Pattern(pattern); // before deleting the current pattern, which the argument may refer to
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = newpat;
     own_ = true;
     return *this;
   }
-- 
2.43.0


From 4229bcba0a3ce15ea09d67284793850e7a1e8059 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:14:21 +0000
Subject: [PATCH 41/44] fix: PCRE2Matcher does not leak its match context when
 the regex has an error

---
 include/reflex/pcre2matcher.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index 30583ae..fe79f31 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -80,8 +80,8 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       ctx_(NULL),
       stk_(NULL)
   {
+    compile(); // may throw, before reset() allocates
     reset();
-    compile();
   }
   /// Construct matcher engine from a string regex, and an input character sequence.
   template<typename P> /// @tparam <P> pattern is a string regex
@@ -98,8 +98,8 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       ctx_(NULL),
       stk_(NULL)
   {
+    compile(); // may throw, before reset() allocates
     reset();
-    compile();
   }
   /// Copy constructor.
   PCRE2Matcher(const PCRE2Matcher& matcher) ///< matcher to copy
-- 
2.43.0


From eedb2674bce0204b1527ac23893b16cf9a4ce440 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:14:21 +0000
Subject: [PATCH 42/44] fix: a lexer deletes the matchers left on its stack,
 and copies of a lexer do not share its matchers

---
 include/reflex/abslexer.h | 48 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/include/reflex/abslexer.h b/include/reflex/abslexer.h
index d9b8967..e4539b5 100644
--- a/include/reflex/abslexer.h
+++ b/include/reflex/abslexer.h
@@ -101,12 +101,41 @@ class AbstractLexer {
       stack_(),
       state_()
   { }
-  /// Delete lexer and its current matcher with its associated input.
+  /// Copy constructor, the copy does not share the matchers of the lexer to copy.
+  AbstractLexer(const AbstractLexer& lexer) ///< lexer to copy
+    :
+      in_(lexer.in_),
+      os_(lexer.os_),
+      base_(lexer.base_),
+      size_(lexer.size_),
+      matcher_(NULL),
+      start_(lexer.start_),
+      debug_(lexer.debug_),
+      stack_(),
+      state_(lexer.state_)
+  { }
+  /// Delete lexer and its current matcher with its associated input, including the matchers pushed on the stack.
   virtual ~AbstractLexer()
   {
     DBGLOG("AbstractLexer::~AbstractLexer()");
-    if (matcher_ != NULL)
-      delete matcher_;
+    del_matchers();
+  }
+  /// Assign a lexer, deletes the matchers of this lexer and does not share the matchers of the lexer assigned.
+  AbstractLexer& operator=(const AbstractLexer& lexer) ///< lexer to assign
+    /// @returns reference to *this
+  {
+    if (this != &lexer)
+    {
+      del_matchers();
+      in_ = lexer.in_;
+      os_ = lexer.os_;
+      base_ = lexer.base_;
+      size_ = lexer.size_;
+      start_ = lexer.start_;
+      debug_ = lexer.debug_;
+      state_ = lexer.state_;
+    }
+    return *this;
   }
   /// Set debug flag value.
   virtual void set_debug(int flag) ///< 0 or 1 (false or true)
@@ -421,6 +450,19 @@ class AbstractLexer {
     throw std::runtime_error(stream_message.str());
   }
  protected:
+  /// Delete the current matcher and the matchers pushed on the stack.
+  void del_matchers()
+  {
+    if (matcher_ != NULL)
+      delete matcher_;
+    matcher_ = NULL;
+    while (!stack_.empty())
+    {
+      if (stack_.top() != NULL)
+        delete stack_.top();
+      stack_.pop();
+    }
+  }
   Input                in_;      ///< the input character sequence to scan
   std::ostream        *os_;      ///< the output stream to echo text matches to
   char                *base_;    ///< the buffer to scan in place, if non-NULL
-- 
2.43.0


From a927756e8cafbabeef1470a59d279321c7d60972 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:14:21 +0000
Subject: [PATCH 43/44] fix: Pattern does not leak its opcodes when the files
 it exports cannot be written

---
 lib/pattern.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index a9946ef..e99fda0 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -2103,8 +2103,19 @@ void Pattern::assemble(DFA::State *start)
   compact_dfa(start);
   encode_dfa(start);
   wms_ = timer_elapsed(t);
-  gencode_dfa(start);
-  export_code();
+  try
+  {
+    gencode_dfa(start);
+    export_code();
+  }
+  catch (...)
+  {
+    // the constructor throws, when the files cannot be written, so the destructor is not called to delete the opcodes
+    delete[] opc_;
+    opc_ = NULL;
+    nop_ = 0;
+    throw;
+  }
   DBGLOG("END assemble()");
 }
 
-- 
2.43.0


From eddd435f07a31a39e0689d1a7db853554f4f671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:54 +0000
Subject: [PATCH 44/44] fix: an <<EOF>> rule after an action | does not shift
 the numbers of the rules that follow it

---
 src/reflex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 61e3c48..8a97c31 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -3094,7 +3094,8 @@ void Reflex::write_lexer()
             *out <<
               "            break;\n";
         }
-        ++accept;
+        if (!eof_rule)
+          ++accept;
       }
     }
     *out <<
-- 
2.43.0

