From f01721565e6f875da5f2c3250da0c2a74cd83e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:52 +0000
Subject: [PATCH 001/160] fix: refuse to split more individuals than there are

a split asked to eliminate more individuals than the population holds computed a wrapped-around size and accessed memory out of bounds instead of throwing.
---
 eo/src/eoReduceSplit.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/eo/src/eoReduceSplit.h b/eo/src/eoReduceSplit.h
index b310087..d7cabe6 100644
--- a/eo/src/eoReduceSplit.h
+++ b/eo/src/eoReduceSplit.h
@@ -64,9 +64,9 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoTruncateSplit: Cannot truncate to a larger size!\n");
+    unsigned newsize = popSize - eliminated;
 
     _newgen.nth_element(newsize);
 
@@ -141,9 +141,9 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoRandomSplit: Cannot truncate to a larger size!\n");
+    unsigned newsize = popSize - eliminated;
 
     _newgen.shuffle();
 
@@ -180,8 +180,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoLinearRandomSplit: Cannot truncate to a larger size!\n");
 
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
@@ -232,8 +231,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoDetTournamentTruncateSplit: Cannot truncate to a larger size!\n");
 
 
@@ -299,8 +297,7 @@ end of old version    */
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoDetTournamentTruncateSplit: Cannot truncate to a larger size!\n");
 
 
-- 
2.43.0


From 483999b29422b029053d306a5040bd12156effe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:52 +0000
Subject: [PATCH 002/160] fix: make the random and stochastic tournament splits
 usable

eoLinearRandomSplit and eoStochTournamentTruncateSplit could not be instantiated, and the latter looped over the wrong counter so that it eliminated nobody.
---
 eo/src/eoReduceSplit.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoReduceSplit.h b/eo/src/eoReduceSplit.h
index d7cabe6..be06057 100644
--- a/eo/src/eoReduceSplit.h
+++ b/eo/src/eoReduceSplit.h
@@ -186,7 +186,7 @@ public:
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
     for (unsigned i=0; i<eliminated; i++)
       {
-        unsigned loser=random(_newgen.size());
+        unsigned loser=eo::rng.random(_newgen.size());
         typename eoPop<EOT>::iterator it = _newgen.begin()+loser;
         if (returnEliminated)
           _eliminated.push_back(*it);
@@ -255,7 +255,7 @@ private:
 To be used in SSGA-like replacements (e.g. see eoSSGAStochTournamentReplacement)
 */
 template <class EOT>
-class eoStochTournamentTruncateSplit : public eoReduce<EOT>
+class eoStochTournamentTruncateSplit : public eoReduceSplit<EOT>
 {
 public:
   /** Ctor: must provide amount of reduction,
@@ -303,7 +303,7 @@ end of old version    */
 
 
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
-    for (unsigned i=0; i<_eliminated.size(); i++)
+    for (unsigned i=0; i<eliminated; i++)
       {
         typename eoPop<EOT>::iterator it = inverse_stochastic_tournament(_newgen.begin(), _newgen.end(), t_rate);
         if (returnEliminated)
-- 
2.43.0


From d72f454a0330f8ce0ad12344efafbfd1cb94a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:12 +0000
Subject: [PATCH 003/160] fix: transfer only the elite in eoElitism

an elitist merge appended the whole parent population to the offspring instead of the requested number of best parents.
---
 eo/src/eoMerge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoMerge.h b/eo/src/eoMerge.h
index 1564f39..1696727 100644
--- a/eo/src/eoMerge.h
+++ b/eo/src/eoMerge.h
@@ -96,7 +96,7 @@ public :
     std::vector<const EOT*> result;
     _pop.nth_element(combienLocal, result);
 
-    for (size_t i = 0; i < result.size(); ++i)
+    for (size_t i = 0; i < combienLocal; ++i)
       {
         _offspring.push_back(*result[i]);
       }
-- 
2.43.0


From aff4e71067b3e4d3f351e2131a8c94fc9a6972d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:17 +0000
Subject: [PATCH 004/160] fix: save the whole elite under weak elitism

weak elitism of eoReduceMergeReduce dropped the last elite individual, so an elite of one was never saved, and skipped better ones behind a worse one because the elite was not sorted.
---
 eo/src/eoReduceMergeReduce.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eo/src/eoReduceMergeReduce.h b/eo/src/eoReduceMergeReduce.h
index d12a2b6..d7135e4 100644
--- a/eo/src/eoReduceMergeReduce.h
+++ b/eo/src/eoReduceMergeReduce.h
@@ -120,7 +120,8 @@ public:
               _parents.sort();
               EOT & eoLimit = _parents[elite-1];
               unsigned index=0;
-              while ( (temp[index++] > eoLimit) && (index < temp.size()) )
+              temp.sort();
+              while ( (index < temp.size()) && (temp[index++] > eoLimit) )
                 toSave++;
               if (toSave)
                 for (unsigned i=0; i<toSave; i++)
-- 
2.43.0


From d9d5d6a40569eb92c644a4a50207964a122d0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:36 +0000
Subject: [PATCH 005/160] fix: make tournament selection on worths usable

eoDetTournamentWorthSelect and eoStochTournamentWorthSelect could not be instantiated.
---
 eo/src/eoSelectFromWorth.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoSelectFromWorth.h b/eo/src/eoSelectFromWorth.h
index bbd0380..fc1c9d9 100644
--- a/eo/src/eoSelectFromWorth.h
+++ b/eo/src/eoSelectFromWorth.h
@@ -114,7 +114,7 @@ public:
         unsigned index = it - perf2Worth.value().begin();
 #ifndef NDEBUG
         // check whether the stuff is still in sync
-        check_sync(index, pop[index]);
+        this->check_sync(index, pop[index]);
 #endif
         return pop[index];
     }
@@ -156,7 +156,7 @@ public:
 
 #ifndef NDEBUG
   // check whether the stuff is still in sync
-  check_sync(index, _pop[index]);
+  this->check_sync(index, _pop[index]);
 #endif
 
     return _pop[index];
-- 
2.43.0


From 608715179063cb59ff896fa9b2dc14c61753d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:41 +0000
Subject: [PATCH 006/160] fix: make eoNoPerf2Worth usable

eoNoPerf2Worth, which copies the fitness as the worth, could not be instantiated.
---
 eo/src/eoPerf2Worth.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoPerf2Worth.h b/eo/src/eoPerf2Worth.h
index 02c065c..26f868d 100644
--- a/eo/src/eoPerf2Worth.h
+++ b/eo/src/eoPerf2Worth.h
@@ -247,14 +247,14 @@ class eoNoPerf2Worth : public eoPerf2Worth<EOT, typename EOT::Fitness>
 {
 public:
 
-    using eoValueParam< EOT >::value;
+    using eoPerf2Worth<EOT, typename EOT::Fitness>::value;
 
     // default behaviour, just copy fitnesses
     void operator()(const eoPop<EOT>& _pop) {
         unsigned i;
         value().resize(_pop.size());
         for (i = 0; i < _pop.size(); ++i)
-            value()[i]=_pop[i];
+            value()[i]=_pop[i].fitness();
     }
 };
 
-- 
2.43.0


From b91a96a969307971b4a0d428e9801075ad65aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:06 +0000
Subject: [PATCH 007/160] fix: return the best individual from eoEliteSelect

eoEliteSelect returned the first individual of the population, whatever its fitness, instead of the best one.
---
 eo/src/eoSequentialSelect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoSequentialSelect.h b/eo/src/eoSequentialSelect.h
index 002aca7..5d2b318 100644
--- a/eo/src/eoSequentialSelect.h
+++ b/eo/src/eoSequentialSelect.h
@@ -104,7 +104,7 @@ class eoEliteSelect: public eoSequentialSelect<EOT>
         virtual const EOT& operator()(const eoPop<EOT>& pop)
         {
             this->setup(pop);
-            return pop[0]; // the best one
+            return pop.best_element();
         }
 };
 
-- 
2.43.0


From bc5f6be87e230c7edab3fb60cfa13e9d4e084d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:18 +0000
Subject: [PATCH 008/160] fix: select uniformly when all fitnesses are zero in
 eoStochasticUniversalSelect

stochastic universal selection read past its table and returned an out-of-range individual when every fitness is zero.
---
 eo/src/eoStochasticUniversalSelect.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eo/src/eoStochasticUniversalSelect.h b/eo/src/eoStochasticUniversalSelect.h
index e6ddfe7..6e8374b 100644
--- a/eo/src/eoStochasticUniversalSelect.h
+++ b/eo/src/eoStochasticUniversalSelect.h
@@ -70,6 +70,11 @@ public:
 
       unsigned i = std::upper_bound(cumulative.begin(), cumulative.end(), fortune) - cumulative.begin();
 
+      if (cumulative.back() == 0) { // nothing to share: everybody once
+          for (unsigned j = 0; j < _pop.size(); ++j)
+              indices.push_back(j);
+      }
+
       while (indices.size() < _pop.size()) {
 
           while (cumulative[i] < fortune) {i++;} // linear search is good enough as we average one step each time
-- 
2.43.0


From e995fc84089a9d7b7d7695a04fe300928edb6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:18 +0000
Subject: [PATCH 009/160] fix: scale the fitness of a converged population

linear fitness scaling gave every individual a not-a-number worth when all fitnesses are equal, and the roulette wheel on these worths then returned an individual before the beginning of the population.
---
 eo/src/eoLinearFitScaling.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eo/src/eoLinearFitScaling.h b/eo/src/eoLinearFitScaling.h
index 269518f..3415f48 100644
--- a/eo/src/eoLinearFitScaling.h
+++ b/eo/src/eoLinearFitScaling.h
@@ -75,6 +75,12 @@ public:
             sum += static_cast<double>(_pop[i].fitness());
         double averageFitness = sum/pSize;
 
+        // a converged population has nothing to scale: same worth for everybody
+        if (static_cast<double>(_pop.worse_element().fitness()) == bestFitness) {
+            std::fill(value().begin(), value().end(), 1.0/pSize);
+            return;
+        }
+
         // the coefficients for linear scaling
         double denom = pSize*(bestFitness - averageFitness);
         double alpha = (pressure-1)/denom;
-- 
2.43.0


From dba9abd580cce6238d67ad90686d59a4a9aa9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:08 +0000
Subject: [PATCH 010/160] fix: make the generic fixed-length crossovers compile

The headers of the generic fixed-length crossovers and of the boolean flip did not compile (misnamed constructors and types), so none of them could be used.
---
 eo/src/eoFlOrBinOp.h   | 30 +++++++++++++-----------------
 eo/src/eoFlOrQuadOp.h  | 30 ++++++++++++++----------------
 eo/src/ga/eoBoolFlip.h |  2 +-
 3 files changed, 28 insertions(+), 34 deletions(-)

diff --git a/eo/src/eoFlOrBinOp.h b/eo/src/eoFlOrBinOp.h
index a4f1812..9ac5136 100644
--- a/eo/src/eoFlOrBinOp.h
+++ b/eo/src/eoFlOrBinOp.h
@@ -65,7 +65,7 @@ public :
   {
     if (_eo1.size() != _eo2.size())
       {
-        string s = "Operand size don't match in " + className();
+        std::string s = "Operand size don't match in " + className();
         throw eoException(s);
       }
     bool changed = false;
@@ -79,7 +79,7 @@ public :
   }
 
   /** inherited className()*/
-  virtual string className() const { return "eoFlOrAllAtomBinOp"; }
+  virtual std::string className() const { return "eoFlOrAllAtomBinOp"; }
 
 private:
   double rate;
@@ -100,7 +100,7 @@ public :
   typedef typename EOT::AtomType AtomType;
 
   /** default ctor: requires an Atom BinOp and an unsigned */
-  eoFlOrAtomBinOp( eoBinOp<AtomType>& _op, unsigned _k = 1):
+  eoFlOrKAtomBinOp( eoBinOp<AtomType>& _op, unsigned _k = 1):
     op(_op), k( _k ) {}
 
   /** applies the Atom BinOp to some components */
@@ -108,7 +108,7 @@ public :
   {
     if (_eo1.size() != _eo2.size())
       {
-        string s = "Operand size don't match in " + className();
+        std::string s = "Operand size don't match in " + className();
         throw eoException(s);
       }
 
@@ -123,7 +123,7 @@ public :
   }
 
   /** inherited className()*/
-  virtual string className() const { return "eoFlOrKAtomBinOp"; }
+  virtual std::string className() const { return "eoFlOrKAtomBinOp"; }
 
 private:
   unsigned k;
@@ -144,23 +144,21 @@ public :
   typedef typename EOT::AtomType AtomType;
 
   /** default ctor: requires a rate - 0.5 by default */
-  eoFlOrUniformBinOp(double _rate=0.5) : eoBinOp<EOT>(_size),
+  eoFlOrUniformBinOp(double _rate=0.5) :
     rate(_rate) {}
 
   /** excahnges atoms at given rate */
   bool operator()(EOT & _eo1, const EOT & _eo2)
   {
-    unsigned i;
-    Atom tmp;
     if (_eo1.size() != _eo2.size())
       {
-        string s = "Operand size don't match in " + className();
+        std::string s = "Operand size don't match in " + className();
         throw eoException(s);
   }
     bool hasChanged = false;
     for (unsigned i=0; i<_eo1.size(); i++)
       {
-        if ( (_eo1[i]!=_eo2[i]) && (eo::rng.filp(rate)) )
+        if ( (_eo1[i]!=_eo2[i]) && (eo::rng.flip(rate)) )
         {
           _eo1[i] = _eo2[i];
           hasChanged = true;
@@ -170,7 +168,7 @@ public :
   }
 
   /** inherited className()*/
-  virtual string className() const { return "eoFlOrUniformBinOp"; }
+  virtual std::string className() const { return "eoFlOrUniformBinOp"; }
 
 private:
   double rate;
@@ -189,16 +187,14 @@ public :
   typedef typename EOT::AtomType AtomType;
 
   /** default ctor: no argument */
-  eoVlUniformBinOp() {}
+  eoFlOr1ptBinOp() {}
 
   /** exchanges first and second parts of the vectors of Atoms */
-  bool operator()(EOT & _eo1, EOT & _eo2)
+  bool operator()(EOT & _eo1, const EOT & _eo2)
   {
-    unsigned i;
-    Atom tmp;
     if (_eo1.size() != _eo2.size())
       {
-        string s = "Operand size don't match in " + className();
+        std::string s = "Operand size don't match in " + className();
         throw eoException(s);
   }
     bool hasChanged = false;
@@ -215,7 +211,7 @@ public :
   }
 
   /** inherited className()*/
-  virtual string className() const { return "eoFlOr1ptBinOp"; }
+  virtual std::string className() const { return "eoFlOr1ptBinOp"; }
 
 };
 
diff --git a/eo/src/eoFlOrQuadOp.h b/eo/src/eoFlOrQuadOp.h
index f887d95..c82ccb7 100644
--- a/eo/src/eoFlOrQuadOp.h
+++ b/eo/src/eoFlOrQuadOp.h
@@ -71,7 +71,7 @@ public :
   }
 
   /** inherited className()*/
-  virtual string className() const { return "eoFlOrAllAtomQuadOp"; }
+  virtual std::string className() const { return "eoFlOrAllAtomQuadOp"; }
 
 private:
   double rate;
@@ -92,15 +92,15 @@ public :
   typedef typename EOT::AtomType AtomType;
 
   /** default ctor: requires an Atom QuadOp and an unsigned */
-  eoFlOrAtomQuadOp( eoQuadOp<AtomType>& _op, unsigned _k = 1):
+  eoFlOrKAtomQuadOp( eoQuadOp<AtomType>& _op, unsigned _k = 1):
     op(_op), k( _k ) {}
 
   /** applies the Atom QuadOp to some components */
-  bool operator()(EOT & _eo1, const EOT & _eo2)
+  bool operator()(EOT & _eo1, EOT & _eo2)
   {
     if (_eo1.size() != _eo2.size())
       {
-        string s = "Operand size don't match in " + className();
+        std::string s = "Operand size don't match in " + className();
         throw eoException(s);
       }
 
@@ -115,7 +115,7 @@ public :
   }
 
   /** inherited className()*/
-  virtual string className() const { return "eoFlOrKAtomQuadOp"; }
+  virtual std::string className() const { return "eoFlOrKAtomQuadOp"; }
 
 private:
   unsigned k;
@@ -135,23 +135,22 @@ public :
   typedef typename EOT::AtomType AtomType;
 
   /** default ctor: requires a rate - 0.5 by default */
-  eoVlUniformQuadOp(double _rate=0.5) : eoQuadOp<EOT>(_size),
+  eoFlOrUniformQuadOp(double _rate=0.5) :
     rate(_rate) {}
 
   /** excahnges atoms at given rate */
   bool operator()(EOT & _eo1, EOT & _eo2)
   {
-    unsigned i;
-    Atom tmp;
+    AtomType tmp;
     if (_eo1.size() != _eo2.size())
       {
-        string s = "Operand size don't match in " + className();
+        std::string s = "Operand size don't match in " + className();
         throw eoException(s);
   }
     bool hasChanged = false;
     for (unsigned i=0; i<_eo1.size(); i++)
       {
-        if ( (_eo1[i]!=_eo2[i]) && (eo::rng.filp(rate)) )
+        if ( (_eo1[i]!=_eo2[i]) && (eo::rng.flip(rate)) )
         {
           tmp = _eo1[i];
           _eo1[i] = _eo2[i];
@@ -163,7 +162,7 @@ public :
   }
 
   /** inherited className()*/
-  virtual string className() const { return "eoFlOrUniformQuadOp"; }
+  virtual std::string className() const { return "eoFlOrUniformQuadOp"; }
 
 private:
   double rate;
@@ -181,16 +180,15 @@ public :
   typedef typename EOT::AtomType AtomType;
 
   /** default ctor: no argument */
-  eoVlUniformQuadOp() {}
+  eoFlOr1ptQuadOp() {}
 
   /** exchanges first and second parts of the vectors of Atoms */
   bool operator()(EOT & _eo1, EOT & _eo2)
   {
-    unsigned i;
-    Atom tmp;
+    AtomType tmp;
     if (_eo1.size() != _eo2.size())
       {
-        string s = "Operand size don't match in " + className();
+        std::string s = "Operand size don't match in " + className();
         throw eoException(s);
   }
     bool hasChanged = false;
@@ -209,7 +207,7 @@ public :
   }
 
   /** inherited className()*/
-  virtual string className() const { return "eoFlOr1ptQuadOp"; }
+  virtual std::string className() const { return "eoFlOr1ptQuadOp"; }
 
 };
 
diff --git a/eo/src/ga/eoBoolFlip.h b/eo/src/ga/eoBoolFlip.h
index 1199528..a166de2 100644
--- a/eo/src/ga/eoBoolFlip.h
+++ b/eo/src/ga/eoBoolFlip.h
@@ -42,7 +42,7 @@ public:
   }
 
   /** inherited className() */
-  virtual string className() const {return "boolFlip";}
+  virtual std::string className() const {return "boolFlip";}
 
 };
 
-- 
2.43.0


From 8fc4b60d6df6ced6fe2573207d2242fbb704b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:21 +0000
Subject: [PATCH 011/160] fix: make the proportional combination of binary
 operators usable

The combined binary operator returned nothing from an overriding function that must report the change, so it could not be instantiated.
---
 eo/src/eoProportionalCombinedOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoProportionalCombinedOp.h b/eo/src/eoProportionalCombinedOp.h
index 0dce5b0..b1d00cc 100644
--- a/eo/src/eoProportionalCombinedOp.h
+++ b/eo/src/eoProportionalCombinedOp.h
@@ -149,7 +149,7 @@ virtual void add(eoBinOp<EOT> & _op, const double _rate, bool _verbose=false)
       }
   }
 
-  virtual void operator()(EOT & _indi1, const EOT & _indi2)
+  virtual bool operator()(EOT & _indi1, const EOT & _indi2)
   {
     unsigned what = rng.roulette_wheel(rates); // choose one op index
     return (*ops[what])(_indi1, _indi2);                   // apply it
-- 
2.43.0


From 6e8e4821fbe925f7211e0a1418056a4ceea88228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:15 +0000
Subject: [PATCH 012/160] fix: keep the first parent in place while a crossover
 fetches the second

A crossover applied to the last produced offspring of a sequence of operators fetched its second individual by appending to a full offspring vector and then crossed a dangling first individual.
---
 eo/src/eoGenOp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eo/src/eoGenOp.h b/eo/src/eoGenOp.h
index deb5c27..ea8b71f 100644
--- a/eo/src/eoGenOp.h
+++ b/eo/src/eoGenOp.h
@@ -168,6 +168,8 @@ class eoQuadGenOp : public eoGenOp<EOT>
 
     void apply(eoPopulator<EOT>& _pop)
     {
+      // getting b may append an individual: make sure that this does not move a
+      _pop.reserve(max_production());
       EOT& a = *_pop;
       EOT& b = *++_pop;
 
-- 
2.43.0


From b46a9abb26a7439a33ee664b7c50128c6b3e6454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:25 +0000
Subject: [PATCH 013/160] fix: report the change made by the variable-length
 uniform crossovers

The two-parent uniform crossover of variable-length genotypes reported no change when its result was a copy of the second parent, which left the fitness of the first parent on it, and both uniform crossovers kept the genes of rejected trials.
---
 eo/src/eoVariableLengthCrossover.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/eo/src/eoVariableLengthCrossover.h b/eo/src/eoVariableLengthCrossover.h
index c61f916..1130b7e 100644
--- a/eo/src/eoVariableLengthCrossover.h
+++ b/eo/src/eoVariableLengthCrossover.h
@@ -236,6 +236,8 @@ public :
     EOT tmp1, tmp2;
     unsigned index=0;
     do {
+      tmp1.clear();
+      tmp2.clear();
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
@@ -296,16 +298,15 @@ public :
   {
     unsigned i;
     EOT tmp1;
-    bool tmpIsOne=true, tmpIsTwo=true;
+    bool tmpIsOne=true;
     unsigned index=0;
     do {
+      tmp1.clear();
+      tmpIsOne = true;
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
-            {
-              tmp1.push_back(_eo1[i]);
-              tmpIsTwo = false;
-            }
+            tmp1.push_back(_eo1[i]);
           else
             tmpIsOne=false;
         // we should look for _eo1[i] inside _eo2 and erase it there if found!
@@ -317,8 +318,6 @@ public :
               tmp1.push_back(_eo2[i]);
               tmpIsOne = false;
             }
-          else
-            tmpIsTwo = false;
         }
       index++;
     } while ( ( (tmp1.size()<Min) || (tmp1.size()>Max) )
@@ -331,13 +330,8 @@ public :
       }
 
     _eo1.swap(tmp1);
-    if (tmpIsTwo)
+    if (tmpIsOne)                  // unchanged, already has the right fitness
       {
-        //	_eo1.fitness(_eo2.fitness());     NO FITNESS EXISTS HERE!
-        return false;
-      }
-    if (tmpIsOne)                  // already has the right fitness
-      {                            // WRONG: NO FITNESS EXISTS HERE!
         return false;
       }
     return true;                   // there were some modifications...
-- 
2.43.0


From cffc2cfe64f5b486f8c58f210b7c730d75aa0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:22 +0000
Subject: [PATCH 014/160] fix: count the evaluations made under a time contract

The two evaluators bounded by time are evaluation counters but never counted anything, and the wall-clock one could not even be instantiated.
---
 eo/src/eoEvalTimeThrowException.h     | 2 +-
 eo/src/eoEvalUserTimeThrowException.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoEvalTimeThrowException.h b/eo/src/eoEvalTimeThrowException.h
index 5b72de6..f2c6589 100644
--- a/eo/src/eoEvalTimeThrowException.h
+++ b/eo/src/eoEvalTimeThrowException.h
@@ -47,7 +47,7 @@ public:
             if( elapsed >= _max ) {
                 throw eoMaxTimeException(elapsed);
             } else {
-                func(eo);
+                eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
diff --git a/eo/src/eoEvalUserTimeThrowException.h b/eo/src/eoEvalUserTimeThrowException.h
index a117484..7b1b281 100644
--- a/eo/src/eoEvalUserTimeThrowException.h
+++ b/eo/src/eoEvalUserTimeThrowException.h
@@ -61,7 +61,7 @@ public:
             if( current >= _max ) {
                 throw eoMaxTimeException( current );
             } else {
-                this->func(eo);
+                eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
@@ -95,7 +95,7 @@ public:
             if( current.QuadPart >= _max ) {
                 throw eoMaxTimeException( current.QuadPart );
             } else {
-                func(eo);
+                eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
-- 
2.43.0


From 879eff140069fc0265d30441aae841da739a1fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:40 +0000
Subject: [PATCH 015/160] fix: let a rate given to eoHowMany::value take effect

Setting a positive rate on an existing eoHowMany was ignored, and a former absolute count kept being used.
---
 eo/src/utils/eoHowMany.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eo/src/utils/eoHowMany.h b/eo/src/utils/eoHowMany.h
index 7804398..a497bc1 100644
--- a/eo/src/utils/eoHowMany.h
+++ b/eo/src/utils/eoHowMany.h
@@ -184,6 +184,8 @@ public:
   {
     if (_interpret_as_rate)
       {
+        rate = _rate;
+        count = 0;
         if (_rate<0)
           {
             rate = 1.0+_rate;
-- 
2.43.0


From f40a7b5b7ea07bafca691c75482605ac19edfb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:40 +0000
Subject: [PATCH 016/160] fix: signal an exhausted source with the documented
 exception

The sequential populator threw a private exception type of its own, which neither users nor the operator containers could catch.
---
 eo/src/eoPopulator.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eo/src/eoPopulator.h b/eo/src/eoPopulator.h
index 9c8d28a..51f1708 100644
--- a/eo/src/eoPopulator.h
+++ b/eo/src/eoPopulator.h
@@ -167,7 +167,7 @@ public:
     /** the select method simply returns next individual in the src pop */
     const EOT& select(void) {
         if(current >= eoPopulator< EOT >::src.size()) {
-            throw OutOfIndividuals();
+            throw typename eoPopulator<EOT>::OutOfIndividuals();
         }
 
         const EOT& res = src[current++];
@@ -177,8 +177,6 @@ public:
 
 private:
 
-    struct OutOfIndividuals {};
-
     unsigned current;
 };
 
-- 
2.43.0


From fe9e7c1f452c9b21971078a109e57633b0a6940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:31 +0000
Subject: [PATCH 017/160] fix: draw shuffles from the library's random
 generator

Shuffling a population, initialising a permutation, ordering random variable neighbourhoods and two archive selections drew from the system's entropy source, so that a run could not be repeated from its seed.
---
 eo/src/eoInit.h                                | 3 +--
 eo/src/eoPop.h                                 | 7 +++----
 mo/src/neighborhood/moRndVectorVNSelection.h   | 3 +--
 moeo/src/selection/moeoDetArchiveSelect.h      | 6 ++++--
 moeo/src/selection/moeoNumberUnvisitedSelect.h | 4 ++--
 5 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/eo/src/eoInit.h b/eo/src/eoInit.h
index 5230b29..329b3b2 100644
--- a/eo/src/eoInit.h
+++ b/eo/src/eoInit.h
@@ -198,8 +198,7 @@ class eoInitPermutation: public eoInit<EOT> // FIXME inherit from eoInitWithDim
                 chrom[idx] = idx+startFrom;
             }
 
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             std::shuffle(chrom.begin(), chrom.end(), gen);
             chrom.invalidate();
         }
diff --git a/eo/src/eoPop.h b/eo/src/eoPop.h
index fe91102..c868e79 100644
--- a/eo/src/eoPop.h
+++ b/eo/src/eoPop.h
@@ -47,6 +47,7 @@ Authors:
 #include "eoInit.h"
 // #include "utils/rnd_generators.h"  // for shuffle method
 #include "eoExceptions.h"
+#include "utils/eoRNG.h"
 
 /** A std::vector of EO object, to be used in all algorithms
  *      (selectors, operators, replacements, ...).
@@ -183,8 +184,7 @@ class eoPop: public std::vector<EOT>, public eoObject, public eoPersistent
         */
         void shuffle(void)
         {
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             //UF_random_generator<unsigned int> gen; // FIXME refactor
             std::shuffle(begin(), end(), gen);
         }
@@ -197,8 +197,7 @@ class eoPop: public std::vector<EOT>, public eoObject, public eoPersistent
 
             std::transform(begin(), end(), result.begin(), Ref());
 
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             //UF_random_generator<unsigned int> gen; // FIXME refactor
             std::shuffle(result.begin(), result.end(), gen);
         }
diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 86a9d00..27780f2 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -87,8 +87,7 @@ public:
           order.push_back(i); }
 
 #if __cplusplus >= 201103L
-    std::random_device rd;
-    std::mt19937 gen(rd());
+    std::mt19937 gen(eo::rng.rand());
     std::shuffle(order.begin(), order.end(), gen);
 #else
     UF_random_generator<unsigned int> gen(order.size());
diff --git a/moeo/src/selection/moeoDetArchiveSelect.h b/moeo/src/selection/moeoDetArchiveSelect.h
index c3f94d0..2b78e85 100644
--- a/moeo/src/selection/moeoDetArchiveSelect.h
+++ b/moeo/src/selection/moeoDetArchiveSelect.h
@@ -41,6 +41,9 @@
 #ifndef MOEODETARCHIVESELECT_H
 #define MOEODETARCHIVESELECT_H
 
+#include <random>
+
+#include <utils/eoRNG.h>
 #include <eoSelect.h>
 #include <cassert>
 
@@ -76,8 +79,7 @@ class moeoDetArchiveSelect : public eoSelect<MOEOT>
 						permutation.push_back(i);
 					// UF_random_generator<unsigned int> rndGen(permutation.size());
 					// random_shuffle(permutation.begin(), permutation.end(), rndGen);
-					std::random_device rd;
-					std::mt19937 gen(rd());
+					std::mt19937 gen(eo::rng.rand());
 					std::shuffle(permutation.begin(), permutation.end(), gen);
 					for (unsigned int i=0; i<max; i++)
 						_dest.push_back(archive[permutation[i]]);
diff --git a/moeo/src/selection/moeoNumberUnvisitedSelect.h b/moeo/src/selection/moeoNumberUnvisitedSelect.h
index 5a23843..0ea51a0 100644
--- a/moeo/src/selection/moeoNumberUnvisitedSelect.h
+++ b/moeo/src/selection/moeoNumberUnvisitedSelect.h
@@ -41,6 +41,7 @@
 
 #include <random>
 
+#include <utils/eoRNG.h>
 #include <eoPop.h>
 #include <selection/moeoUnvisitedSelect.h>
 
@@ -74,8 +75,7 @@ public:
                 res.push_back(i);
         }
         if(number < res.size()){
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             std::shuffle(res.begin(), res.end(), gen);
             res.resize(number);
         }
-- 
2.43.0


From 50c6ccf5d4e3d6bb340376f3f1784dae05cc4567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:31 +0000
Subject: [PATCH 018/160] fix: draw the bucket mutation strength from the
 library's generator

The bucket bit mutation used the C library's random numbers, which the seed of the library does not control.
---
 eo/src/ga/eoStandardBitMutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/ga/eoStandardBitMutation.h b/eo/src/ga/eoStandardBitMutation.h
index 32ece13..77d31ce 100644
--- a/eo/src/ga/eoStandardBitMutation.h
+++ b/eo/src/ga/eoStandardBitMutation.h
@@ -301,7 +301,7 @@ class eoBucketBitMutation : public eoMonOp<EOT>
 
             int nbBits;
             if (gapBit > 0) {
-                nbBits = rand() % gapBit + startBit;
+                nbBits = eo::rng.random(gapBit) + startBit;
             } else {
                 nbBits = endBit;
             }
-- 
2.43.0


From e97c85545483ccb90a427a8ad9591bcde184e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:12 +0000
Subject: [PATCH 019/160] fix: restore a saved random generator exactly

A saved generator kept only six digits of the pending normal draw, so that the draws after a restore differed, and one saved before its first draw wrote uninitialised members.
---
 eo/src/utils/eoRNG.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index e91c6af..303dd97 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -125,7 +125,7 @@ public :
     @see reseed for details on usage of the seeding value.
     */
     eoRng(uint32_t s)
-        : state(0), next(0), left(-1), cached(false)
+        : state(0), next(0), left(-1), cached(false), cacheValue(0)
         {
             state = new uint32_t[N+1];
             initialize(2*s);
@@ -362,7 +362,10 @@ public :
                 _os << state[i] << ' ';
             }
             _os << int(next - state) << ' ';
+            // all the digits, so that the cached value is restored exactly
+            std::streamsize precision = _os.precision(17);
             _os << left << ' ' << cached << ' ' << cacheValue;
+            _os.precision(precision);
         }
 
     /** @brief Read RNG
@@ -508,6 +511,7 @@ using eo::rng;
 inline void eoRng::initialize(uint32_t seed)
 {
     left = -1;
+    next = state;
 
     uint32_t x = (seed | 1U) & 0xFFFFFFFFU, *s = state;
     int j;
-- 
2.43.0


From 0ae305a4d16fad1f43ec7bc8832235a05d990530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:12 +0000
Subject: [PATCH 020/160] fix: draw power laws in their range

The inverse of the power law distribution was applied to a number drawn in the target range instead of in [0,1), which gave values out of range or not numbers.
---
 eo/src/utils/eoRNG.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index 303dd97..6d6a63c 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -234,7 +234,7 @@ public :
      */
     double powerlaw(double min, double max, double gamma)
        {
-            double x = uniform(min,max);
+            double x = uniform();
             return std::pow(
                      x * (std::pow(max,-gamma+1) - std::pow(min,-gamma+1))
                        + std::pow(min,-gamma+1.0),
-- 
2.43.0


From 253b38fc08626ddef3c9c32c3b37b2476128ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:02 +0000
Subject: [PATCH 021/160] fix: draw from the generator given to general bounds

Bounds read from text ignored the random generator passed to them and drew from the global one.
---
 eo/src/utils/eoIntBounds.h  | 4 ++--
 eo/src/utils/eoRealBounds.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/utils/eoIntBounds.h b/eo/src/utils/eoIntBounds.h
index 73b1854..19505b1 100644
--- a/eo/src/utils/eoIntBounds.h
+++ b/eo/src/utils/eoIntBounds.h
@@ -688,12 +688,12 @@ public:
   /** random generator of uniform doubles in bounds
    * std::exception if unbounded
    */
-  virtual double uniform(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->uniform();}
+  virtual double uniform(eoRng & _rng = eo::rng)  const {return repBound->uniform(_rng);}
 
   /** random generator of uniform ints in bounds
    * std::exception if unbounded
    */
-  virtual long int random(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->random();}
+  virtual long int random(eoRng & _rng = eo::rng)  const {return repBound->random(_rng);}
 
   /** for memory managements - ugly */
   virtual eoIntBounds * dup() const  {return repBound->dup();}
diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index c760318..d1f6cb4 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -657,7 +657,7 @@ public:
   /** random generator of uniform numbers in bounds
    * std::exception if unbounded
    */
-  virtual double uniform(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->uniform();}
+  virtual double uniform(eoRng & _rng = eo::rng)  const {return repBound->uniform(_rng);}
 
   /** for memory managements - ugly */
   virtual eoRealBounds * dup() const  {return repBound->dup();}
-- 
2.43.0


From 47718606d24cf51ec689b24db38fa8282b8f751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:30 +0000
Subject: [PATCH 022/160] fix: fold bounds only when outside and never leave
 the interval

Folding moved inside values beyond 1e9 at random, and could end outside for an empty or tiny range.
---
 eo/src/utils/eoIntBounds.h  | 5 +++++
 eo/src/utils/eoRealBounds.h | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoIntBounds.h b/eo/src/utils/eoIntBounds.h
index 19505b1..07afd27 100644
--- a/eo/src/utils/eoIntBounds.h
+++ b/eo/src/utils/eoIntBounds.h
@@ -285,6 +285,9 @@ public :
     long iloc;
     double dlargloc = 2 * range() ;
 
+    if (isInBounds(_r))
+      return;
+
     if (fabs(_r) > 1.0E9)		// iloc too large!
       {
         _r = uniform();
@@ -306,6 +309,8 @@ public :
         if (_r < minimum())
           _r = 2*minimum() - _r ;
       }
+
+    truncate(_r);               // rounding errors
   }
 
   // truncates to the bounds
diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index d1f6cb4..cedce9f 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -271,7 +271,10 @@ public :
     long iloc;
     double dlargloc = 2 * range() ;
 
-    if (fabs(_r) > 1.0E9)		// iloc too large!
+    if (isInBounds(_r))
+      return;
+
+    if (fabs(_r) > 1.0E9 || range() == 0) // iloc too large!
       {
         _r = uniform();
         return;
@@ -292,6 +295,8 @@ public :
         if (_r < minimum())
           _r = 2*minimum() - _r ;
       }
+
+    truncate(_r);               // rounding errors
   }
 
   // truncates to the bounds
-- 
2.43.0


From af6146b38e1cddbadf4272dafe2847d26ec22c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:30 +0000
Subject: [PATCH 023/160] fix: keep general bounds intact when their text is
 malformed

Reading malformed text threw after deleting the held bounds, which the destructor deleted again.
---
 eo/src/utils/eoIntBounds.h  | 3 ++-
 eo/src/utils/eoRealBounds.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoIntBounds.h b/eo/src/utils/eoIntBounds.h
index 07afd27..386c47d 100644
--- a/eo/src/utils/eoIntBounds.h
+++ b/eo/src/utils/eoIntBounds.h
@@ -719,9 +719,10 @@ public:
   {
     std::string s;
     _is >> s;
+    eoIntBounds * newBound = getBoundsFromString(s); // may throw
     if (repBound)
       delete repBound;
-    repBound = getBoundsFromString(s);
+    repBound = newBound;
   }
 
 private:
diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index cedce9f..ef6315e 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -683,9 +683,10 @@ public:
   {
     std::string s;
     _is >> s;
+    eoRealBounds * newBound = getBoundsFromString(s); // may throw
     if (repBound)
       delete repBound;
-    repBound = getBoundsFromString(s);
+    repBound = newBound;
   }
 
 private:
-- 
2.43.0


From 26d475de23edcf321f2b80211629137843e59d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:43 +0000
Subject: [PATCH 024/160] fix: make copied vector bounds independent of the
 original

A copy of vector bounds kept pointing at the bounds owned by the original, which dangle once the original is read again.
---
 eo/src/utils/eoRealBounds.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRealBounds.cpp b/eo/src/utils/eoRealBounds.cpp
index c80c655..7fa5f2b 100644
--- a/eo/src/utils/eoRealBounds.cpp
+++ b/eo/src/utils/eoRealBounds.cpp
@@ -7,6 +7,7 @@
 #include <config.h>
 #endif
 
+#include <algorithm>
 #include <ctime>
 #include <sstream>
 
@@ -56,7 +57,12 @@ eoRealVectorBounds::eoRealVectorBounds(const eoRealVectorBounds & _b):
   // duplicate all pointers!
   if (ownedBounds.size()>0)
     for (unsigned i=0; i<ownedBounds.size(); i++)
-      ownedBounds[i] = ownedBounds[i]->dup();
+      {
+        eoRealBounds * original = ownedBounds[i];
+        ownedBounds[i] = original->dup();
+        // and refer to the copy
+        std::replace(begin(), end(), original, ownedBounds[i]);
+      }
 }
 
 
-- 
2.43.0


From 7427e25bc93e88f7ffa69c68e1ae6f6b5ea62899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:43 +0000
Subject: [PATCH 025/160] fix: use the standard deviation given to the
 unbounded normal mutation

The unbounded per-coordinate normal mutation took its deviation for a vector length and read past its end.
---
 eo/src/es/eoNormalMutation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eo/src/es/eoNormalMutation.h b/eo/src/es/eoNormalMutation.h
index 266b101..9afb1b7 100644
--- a/eo/src/es/eoNormalMutation.h
+++ b/eo/src/es/eoNormalMutation.h
@@ -58,7 +58,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
    * @param _p_change the probability to change a given coordinate
    */
   eoNormalVecMutation(double _sigma, const double& _p_change = 1.0):
-    sigma(_sigma), bounds(eoDummyVectorNoBounds), p_change(_p_change) {}
+    sigma(1, _sigma), bounds(eoDummyVectorNoBounds), p_change(_p_change) {}
 
   /**
    * Constructor with bounds
@@ -92,7 +92,8 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
         {
           if (rng.flip(p_change))
             {
-              _eo[lieu] += sigma[lieu]*rng.normal();
+              // one sigma for all when there are no bounds
+                _eo[lieu] += sigma[sigma.size() == 1 ? 0 : lieu]*rng.normal();
               bounds.foldsInBounds(lieu, _eo[lieu]);
               hasChanged = true;
             }
-- 
2.43.0


From 583c83f07339fd3d7d69258784e60cf1f430838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:43 +0000
Subject: [PATCH 026/160] fix: perturb genes in the unbounded uniform mutation
 of a fixed number

The unbounded uniform mutation of a fixed number of genes replaced them by the perturbation.
---
 eo/src/es/eoRealOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/eoRealOp.h b/eo/src/es/eoRealOp.h
index 8c95741..debc424 100644
--- a/eo/src/es/eoRealOp.h
+++ b/eo/src/es/eoRealOp.h
@@ -207,7 +207,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
           {
             unsigned lieu = rng.random(_eo.size());
             // actually, we should test that we don't re-modify same variable!
-            _eo[lieu] = 2*epsilon[0]*rng.uniform()-epsilon[0];
+            _eo[lieu] += 2*epsilon[0]*rng.uniform()-epsilon[0];
           }
       else
         {
-- 
2.43.0


From a3a1d14b2b03c3f516534ba9ad2fb9fe04575224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:53 +0000
Subject: [PATCH 027/160] fix: draw from vector bounds with the given generator

Vector bounds ignored the generator they were given and drew from the global one.
---
 eo/src/utils/eoRealVectorBounds.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eo/src/utils/eoRealVectorBounds.h b/eo/src/utils/eoRealVectorBounds.h
index d877853..e7e14b5 100644
--- a/eo/src/utils/eoRealVectorBounds.h
+++ b/eo/src/utils/eoRealVectorBounds.h
@@ -187,9 +187,7 @@ public:
    */
   virtual double uniform(unsigned _i, eoRng & _rng = eo::rng)
   {
-    (void)_rng;
-
-    double r= (*this)[_i]->uniform();
+    double r= (*this)[_i]->uniform(_rng);
     return r;
   }
 
-- 
2.43.0


From 26e3badfa3aaea8a9158e3c2fb4b497124c3d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:10 +0000
Subject: [PATCH 028/160] fix: invalidate individuals initialised through a
 real initialiser

The rounding initialiser changed the genotype of an individual and let it keep its old fitness.
---
 eo/src/eoRealToIntInit.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eo/src/eoRealToIntInit.h b/eo/src/eoRealToIntInit.h
index 4b79ca6..334ea55 100644
--- a/eo/src/eoRealToIntInit.h
+++ b/eo/src/eoRealToIntInit.h
@@ -59,6 +59,7 @@ public:
             }
             intsol[i] = static_cast<typename EOTINT::AtomType>(rounded);
         }
+        intsol.invalidate();
     }
 
 protected:
-- 
2.43.0


From f881eaa590b3dc44c6fb375b14af607569903e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:39 +0000
Subject: [PATCH 029/160] fix: read back fitnesses written as several words

Individuals with a dual or assembled fitness were read with a wrong fitness and the rest of it taken for genes.
---
 eo/src/EO.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eo/src/EO.h b/eo/src/EO.h
index 09bb2d2..e35cdb3 100644
--- a/eo/src/EO.h
+++ b/eo/src/EO.h
@@ -141,6 +141,16 @@ public:
                 invalidFitness = false;
                 std::istringstream iss(fitness_str);
                 iss >> repFitness;
+
+                // some fitnesses are written as several words
+                std::string word;
+                while (iss.fail() && iss.eof() && _is >> word)
+                {
+                        fitness_str += ' ' + word;
+                        iss.clear();
+                        iss.str(fitness_str);
+                        iss >> repFitness;
+                }
         }
   }
 
-- 
2.43.0


From 22a75934c2b9a98ed6f3d5dccc9406512238c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:39 +0000
Subject: [PATCH 030/160] fix: make room for the description of a new fitness
 term

Adding a term to an assembled fitness wrote its description past the end of the descriptions.
---
 eo/src/eoScalarFitnessAssembled.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoScalarFitnessAssembled.h b/eo/src/eoScalarFitnessAssembled.h
index 50e9038..bbf98f1 100644
--- a/eo/src/eoScalarFitnessAssembled.h
+++ b/eo/src/eoScalarFitnessAssembled.h
@@ -54,7 +54,7 @@ public:
     if ( _idx < TermDescriptions.size() )
       TermDescriptions[_idx] = _descr;
     else{
-      TermDescriptions.resize(_idx, "Unnamed variable" );
+      TermDescriptions.resize(_idx + 1, "Unnamed variable" );
       TermDescriptions[_idx] = _descr;
     }
   }
-- 
2.43.0


From c71a42d1e4e408556cc7d231c9e469804c6d4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:39 +0000
Subject: [PATCH 031/160] fix: write and read binary partitions in the same
 format

A binary partition was written without its rejected atoms, which reading expects, and was read on top of the previous atoms.
---
 mo/src/problems/partition/moBinaryPartition.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartition.h b/mo/src/problems/partition/moBinaryPartition.h
index 7feaef0..b58fecf 100644
--- a/mo/src/problems/partition/moBinaryPartition.h
+++ b/mo/src/problems/partition/moBinaryPartition.h
@@ -151,12 +151,11 @@ class moBinaryPartition : public EO<FitT>
         virtual void printOn(std::ostream& out) const override
         {
             this->printSelectedOn(out);
-            // Printing the rejected atom should not be necessary,
-            // as this is the complementary set of the selected.
-            // out << "   ";
-            // out << rejected.size() << "  "; // Size.
-            // std::copy(std::begin(rejected), std::end(rejected),
-            //     std::ostream_iterator<AtomType>(out, " ")); // Values.
+            // The rejected atoms are needed to read the partition back.
+            out << "   ";
+            out << rejected.size() << "  "; // Size.
+            std::copy(std::begin(rejected), std::end(rejected),
+                std::ostream_iterator<AtomType>(out, " ")); // Values.
         }
 
         /** Deserialization of the `selected` and `rejected` atoms.
@@ -167,6 +166,8 @@ class moBinaryPartition : public EO<FitT>
         virtual void readFrom(std::istream& in) override
         {
             EO<FitT>::readFrom(in); // Fitness.
+            selected.clear();
+            rejected.clear();
             unsigned size;
             in >> size; // Size.
             for(size_t i = 0; i < size; ++i) {
-- 
2.43.0


From 826b858c11681cb373be65ac5b5823a2a64c5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:59 +0000
Subject: [PATCH 032/160] fix: read back empty bit strings

An empty bit string took the following text for its bits when read back.
---
 eo/src/ga/eoBit.h             | 3 ++-
 moeo/src/core/moeoBitVector.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/eo/src/ga/eoBit.h b/eo/src/ga/eoBit.h
index 320a5b7..955472a 100644
--- a/eo/src/ga/eoBit.h
+++ b/eo/src/ga/eoBit.h
@@ -109,7 +109,8 @@ public:
       unsigned s;
       is >> s;
       std::string bits;
-      is >> bits;
+      if (s > 0)
+        is >> bits;
       if (is)
         {
           resize(bits.size());
diff --git a/moeo/src/core/moeoBitVector.h b/moeo/src/core/moeoBitVector.h
index ff41832..41ac0d0 100644
--- a/moeo/src/core/moeoBitVector.h
+++ b/moeo/src/core/moeoBitVector.h
@@ -95,7 +95,8 @@ class moeoBitVector : public moeoVector < MOEOObjectiveVector, bool, MOEOFitness
       unsigned int s;
       _is >> s;
       std::string bits;
-      _is >> bits;
+      if (s > 0)
+        _is >> bits;
       if (_is)
         {
           resize(bits.size());
-- 
2.43.0


From 2aaaef9d0de9175da9aedeb6048ae389887471f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:59 +0000
Subject: [PATCH 033/160] fix: keep the first character of the values of vector
 parameters

Setting a vector parameter dropped the first character of every value, so that written vectors read back different.
---
 eo/src/utils/eoParam.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index 969ea00..eca43da 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -350,9 +350,10 @@ inline void eoValueParam<std::vector<double> >::setValue(const std::string& _val
     repValue.resize(sz);
     for(unsigned i=0; i<repValue.size(); ++i) {
         char c;
-        do {
-            is >> c;
-        } while((std::string::npos != delimiter.find(c)) && (! is.eof()));
+        while((is >> c) && (std::string::npos != delimiter.find(c)))
+            ;
+        if(is)
+            is.unget(); // first character of the value
         is >> repValue[i];
     }
 }
-- 
2.43.0


From 70dc2e07112b3add282062f4bce659ada609c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:23 +0000
Subject: [PATCH 034/160] fix: keep all the digits of a value given to a
 parameter

Assigning a value to a parameter went through text with six digits and lost the others.
---
 eo/src/utils/eoParam.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index eca43da..f4ec5f5 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -191,13 +191,7 @@ public :
      */
     void value( ValueType val )
     {
-        // convert to string
-        std::ostringstream os;
-        os << val;
-
-        // convert to ValueType
-        std::istringstream is( os.str() );
-        is >> repValue;
+        repValue = val;
     }
 
 
-- 
2.43.0


From b5aab1cc67aea95be6b529ab2a2aca1e0fc082b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:23 +0000
Subject: [PATCH 035/160] fix: read keyword arguments preceded by spaces or
 left unclosed

Arguments after a space took their delimiter along, and a missing closing parenthesis looped for ever.
---
 eo/src/utils/eoParam.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index f4ec5f5..f26c728 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -481,9 +481,10 @@ public:
             while ( (pos=t.find_first_not_of(delim)) < t.size())
             {
                 size_t posEnd = t.find_first_of(delim, pos);
-                std::string u = t.substr(pos,posEnd);//(t, pos);
-                /*u.resize(posEnd - pos);*/
+                std::string u = t.substr(pos,posEnd-pos);
                 second.push_back(u);
+                if (posEnd >= t.size())    // no closing parenthesis
+                    break;
                 t = t.substr(posEnd+1);
             }
         }
-- 
2.43.0


From 1e84c5179925019b7e8129f2b9e059a61d002433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:23 +0000
Subject: [PATCH 036/160] fix: recognise the sections of a saved state when
 loading it

Loading a state restored nothing because section titles were searched with a newline that lines do not hold.
---
 eo/src/utils/eoState.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoState.cpp b/eo/src/utils/eoState.cpp
index 6a46dc6..c52a38c 100644
--- a/eo/src/utils/eoState.cpp
+++ b/eo/src/utils/eoState.cpp
@@ -36,7 +36,10 @@ bool eoState::is_section(const std::string& str, std::string& name)
         return false;
     //else
 
-    std::string::size_type end = str.find(_tag_section_sc);
+    // lines are read without their newline
+    std::string closing = _tag_section_sc.substr( 0, _tag_section_sc.find('\n') );
+    pos += _tag_section_so.size();
+    std::string::size_type end = str.find( closing, pos );
 
     if (end == std::string::npos)
         return false;
@@ -44,7 +47,7 @@ bool eoState::is_section(const std::string& str, std::string& name)
 
     // affect name, passed by reference
     // Note: substr( start, count )
-    name = str.substr( pos + _tag_section_so.size(), end - _tag_section_so.size() );
+    name = str.substr( pos, end - pos );
 
     return true;
 }
-- 
2.43.0


From b19f988c24d321611c1f427a0fa651249dd82628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:04 +0000
Subject: [PATCH 037/160] fix: do not use a dual fitness that could not be read

Reading a truncated dual fitness used an uninitialised feasibility.
---
 eo/src/eoDualFitness.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoDualFitness.h b/eo/src/eoDualFitness.h
index 7fdf402..dfc5bbd 100644
--- a/eo/src/eoDualFitness.h
+++ b/eo/src/eoDualFitness.h
@@ -350,8 +350,10 @@ public:
         bool feasible;
         is >> feasible;
 
-        fitness._value = value;
-        fitness.is_feasible( feasible );
+        if( is ) {
+            fitness._value = value;
+            fitness.is_feasible( feasible );
+        }
         return is;
     }
 };
-- 
2.43.0


From 4a32460ad6786fb330bc9c8a8e23d1bd898c0dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:09 +0000
Subject: [PATCH 038/160] fix: let a negative count of individuals be read

A negative count was written but rejected when read back as a parameter.
---
 eo/src/utils/eoHowMany.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoHowMany.h b/eo/src/utils/eoHowMany.h
index a497bc1..84a3f94 100644
--- a/eo/src/utils/eoHowMany.h
+++ b/eo/src/utils/eoHowMany.h
@@ -166,7 +166,7 @@ public:
       count = int(rate);           // and rate will not be used
 
     // minimal check
-    if ( rate < 0.0 )
+    if ( interpret_as_rate && rate < 0.0 )
       throw eoException("Negative rate read in eoHowMany::readFrom");
   }
 
-- 
2.43.0


From be315362dd27f4a7141e3ce5236adb68c719f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:09 +0000
Subject: [PATCH 039/160] fix: report an undeclared parameter asked by name

Asking the text or the presence of an undeclared parameter dereferenced a null pointer.
---
 eo/src/utils/eoParser.cpp | 2 +-
 eo/src/utils/eoParser.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoParser.cpp b/eo/src/utils/eoParser.cpp
index a7c3c18..71c792a 100644
--- a/eo/src/utils/eoParser.cpp
+++ b/eo/src/utils/eoParser.cpp
@@ -118,7 +118,7 @@ eoParser::eoParser ( unsigned _argc, char **_argv , std::string _programDescript
 
 std::string eoParser::get( const std::string & name) const
 {
-    return getParamWithLongName( name )->getValue();
+    return getParam( name )->getValue();
 }
 
 
diff --git a/eo/src/utils/eoParser.h b/eo/src/utils/eoParser.h
index 8e1df04..0589da4 100644
--- a/eo/src/utils/eoParser.h
+++ b/eo/src/utils/eoParser.h
@@ -172,7 +172,7 @@ public:
     */
     virtual bool isItThere( const std::string& name ) const
     {
-        return isItThere(*getParamWithLongName(name));
+        return isItThere(*getParam(name));
     }
 
     std::string get( const std::string & name) const;
-- 
2.43.0


From d6230da70bd5bf14c567438f25b2d6c26370b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:32 +0000
Subject: [PATCH 040/160] fix: report a parameter asked again under another
 type

Getting or creating a parameter that exists with another type dereferenced a null pointer.
---
 eo/src/utils/eoParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eo/src/utils/eoParser.h b/eo/src/utils/eoParser.h
index 0589da4..adcc401 100644
--- a/eo/src/utils/eoParser.h
+++ b/eo/src/utils/eoParser.h
@@ -258,6 +258,9 @@ public:
                 // found
                 eoValueParam<ValueType>* ptTypedParam(
                     dynamic_cast<eoValueParam<ValueType>*>(ptParam));
+                if (ptTypedParam == NULL) {
+                    throw eoWrongParamTypeException(_longName);
+                }
                 return *ptTypedParam;
             } else {
                 // not found -> create it
-- 
2.43.0


From fe81795b8e95266b97861aa5d9722382254311cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:38 +0000
Subject: [PATCH 041/160] fix: let the command line win over the parameter file
 whatever the spelling

A short option in the parameter file won over the long option of the command line.
---
 eo/src/utils/eoParser.cpp | 15 ++++++++++++++-
 eo/src/utils/eoParser.h   |  5 +++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoParser.cpp b/eo/src/utils/eoParser.cpp
index 71c792a..48110af 100644
--- a/eo/src/utils/eoParser.cpp
+++ b/eo/src/utils/eoParser.cpp
@@ -80,6 +80,7 @@ eoParser::eoParser ( unsigned _argc, char **_argv , std::string _programDescript
                      std::string /*_lFileParamName*/, char /*_shortHand*/) :
     programName(_argv[0]),
     programDescription( _programDescription),
+    readings( 0 ),
     needHelpMessage( false ),
     needHelp(false, "help", "Prints this message", 'h'),
     stopOnUnknownParam(true, "stopOnUnknownParam", "Stop if unkown param entered", '\0')
@@ -170,6 +171,12 @@ void eoParser::doRegisterParam(eoParam& param)
     }
 }
 
+unsigned eoParser::readingOf(const std::string& _option) const
+{
+    std::map<std::string, unsigned>::const_iterator it = lastReading.find(_option);
+    return it == lastReading.end() ? 0 : it->second;
+}
+
 std::pair<bool, std::string> eoParser::getValue(eoParam& _param) const
 {
     std::pair<bool, std::string> result(false, "");
@@ -177,7 +184,10 @@ std::pair<bool, std::string> eoParser::getValue(eoParam& _param) const
     if (_param.shortName() != 0)
     {
         std::map<char, std::string>::const_iterator it = shortNameMap.find(_param.shortName());
-        if (it != shortNameMap.end())
+        // a long name given later (e.g. on the command line, after the file) wins
+        if (it != shortNameMap.end()
+            && (longNameMap.count(_param.longName()) == 0
+                || readingOf(std::string("-") + _param.shortName()) >= readingOf("--" + _param.longName())))
         {
             result.second = it->second;
             result.first = true;
@@ -210,6 +220,7 @@ void eoParser::readFrom(std::istream& is)
     std::string str;
     // we must avoid processing \section{xxx} if xxx is NOT "Parser"
     bool processing = true;
+    ++readings;
     while (is >> str)
     {
         if (str.find(std::string("\\section{"))==0) // found section begin
@@ -247,6 +258,7 @@ void eoParser::readFrom(std::istream& is)
 
                     std::string name(str.begin() + 2, equalLocation);
                     longNameMap[name] = value;
+                    lastReading["--" + name] = readings;
                 }
                 else // it should be a char
                 {
@@ -266,6 +278,7 @@ void eoParser::readFrom(std::istream& is)
                     }
 
                     shortNameMap[str[1]] = value;
+                    lastReading[str.substr(0, 2)] = readings;
                 }
             }
         }
diff --git a/eo/src/utils/eoParser.h b/eo/src/utils/eoParser.h
index adcc401..c9de2df 100644
--- a/eo/src/utils/eoParser.h
+++ b/eo/src/utils/eoParser.h
@@ -343,6 +343,11 @@ private:
   typedef std::map<std::string, std::string> LongNameMapType;
   LongNameMapType longNameMap;
 
+  // rank of the reading (file, then command line, ...) that last gave an option
+  unsigned readings;
+  std::map<std::string, unsigned> lastReading;
+  unsigned readingOf(const std::string& _option) const;
+
   // flag that marks if the user need to know that there was a problem
   // used to display the message about "-h" only once
   bool needHelpMessage;
-- 
2.43.0


From 5a8af32a4e307765ad6bdac6734dd0b0dbd11bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:01 +0000
Subject: [PATCH 042/160] fix: write vector parameters so that they can be read
 back

A vector parameter written in a parameter file was cut at its first space when read back.
---
 eo/src/utils/eoParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoParser.cpp b/eo/src/utils/eoParser.cpp
index 48110af..292cc48 100644
--- a/eo/src/utils/eoParser.cpp
+++ b/eo/src/utils/eoParser.cpp
@@ -312,7 +312,12 @@ void eoParser::printOn(std::ostream& os) const
         if (!isItThere(*param))  // comment out the ones not set by the user
           os << "# ";
 
-        std::string str = "--" + param->longName() + "=" + param->getValue();
+        std::string value = param->getValue();
+        // a vector has to stay in one word to be read back
+        if (dynamic_cast<eoValueParam<std::vector<double> >*>(param))
+            std::replace(value.begin(), value.end(), ' ', ',');
+
+        std::string str = "--" + param->longName() + "=" + value;
 
         os.setf(std::ios_base::left, std::ios_base::adjustfield);
         os << std::setfill(' ') << std::setw(40) << str;
-- 
2.43.0


From b084e8b64218cb5a6187aaa86c0b2b796b42564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:13 +0000
Subject: [PATCH 043/160] fix: make the inverted stopping criterion usable

The inverted continuator named a member that does not exist and could not be compiled.
---
 eo/src/eoInvertedContinue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoInvertedContinue.h b/eo/src/eoInvertedContinue.h
index 9b723a5..9d1ff05 100644
--- a/eo/src/eoInvertedContinue.h
+++ b/eo/src/eoInvertedContinue.h
@@ -55,7 +55,7 @@ public:
   virtual std::string className(void) const { return "eoInvertedContinue"; }
   
 private:
-  eoContinue<EOT> &eval;
+  eoContinue<EOT> &cont;
 
 };
 
-- 
2.43.0


From 6fc2ce2a42bb92995e9fe6e8e3fced00a059a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:50 +0000
Subject: [PATCH 044/160] fix: start the stagnation count from a known best

A steady-fitness criterion created past the minimal number of generations compared with an uninitialised best.
---
 eo/src/eoSteadyFitContinue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoSteadyFitContinue.h b/eo/src/eoSteadyFitContinue.h
index 0b63c5e..d8fc820 100644
--- a/eo/src/eoSteadyFitContinue.h
+++ b/eo/src/eoSteadyFitContinue.h
@@ -53,7 +53,7 @@ public:
   eoSteadyFitContinue( unsigned long _minGens, unsigned long _steadyGen,
                  unsigned long& _currentGen)
     : eoCountContinue<EOT>( _currentGen ), repMinGenerations( _minGens ), repSteadyGenerations( _steadyGen),
-      steadyState(_currentGen>_minGens)
+      steadyState(false)
     {};
 
   /** Returns false when a certain number of generations is
-- 
2.43.0


From 9a5601ecf3fe2160aac2ae13a4fd9554f810f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:50 +0000
Subject: [PATCH 045/160] fix: write every column of a snapshot

A snapshot of three or more vectors repeated the second one in every further column.
---
 eo/src/utils/eoFileSnapshot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoFileSnapshot.h b/eo/src/utils/eoFileSnapshot.h
index 3c70958..1c4b1e5 100644
--- a/eo/src/utils/eoFileSnapshot.h
+++ b/eo/src/utils/eoFileSnapshot.h
@@ -148,7 +148,7 @@ public :
         vv[0]=v;
         for (unsigned i=1; i<vec.size(); i++)
           {
-            ptParam = static_cast<const eoValueParam<std::vector<double> >* >(vec[1]);
+            ptParam = static_cast<const eoValueParam<std::vector<double> >* >(vec[i]);
             vv[i] = ptParam->value();
             if (vv[i].size() != v.size())
               throw eoException("Dimension error in eoSnapshotMonitor");
-- 
2.43.0


From 7d060c8b9e2471f90f6bbae5614c2127bd0ba3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:26 +0000
Subject: [PATCH 046/160] fix: report the rank just outside the population

Asking the fitness of the element of rank equal to the population size read past the end instead of throwing.
---
 eo/src/utils/eoStat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoStat.h b/eo/src/utils/eoStat.h
index 9803f66..54d9516 100644
--- a/eo/src/utils/eoStat.h
+++ b/eo/src/utils/eoStat.h
@@ -250,7 +250,7 @@ public :
 
     virtual void operator()(const std::vector<const EOT*>& _pop)
     {
-        if (whichElement > _pop.size())
+        if (whichElement >= _pop.size())
             throw eoException("fitness requested of element outside of pop");
 
         doit(_pop, Fitness());
-- 
2.43.0


From d3ad031b9c2470aac7f5e8c545e9046bd98cd517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:41 +0000
Subject: [PATCH 047/160] fix: compute the standard deviation of constant and
 single populations

The standard deviation of a population of one or of equal fitnesses was not a number.
---
 eo/src/utils/eoStat.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoStat.h b/eo/src/utils/eoStat.h
index 54d9516..4e51a5f 100644
--- a/eo/src/utils/eoStat.h
+++ b/eo/src/utils/eoStat.h
@@ -221,7 +221,15 @@ public :
 
         double n = _pop.size();
         value().first = result.first / n; // average
-        value().second = sqrt( (result.second - n * value().first * value().first) / (n - 1.0)); // stdev
+
+        // squared deviations are summed apart: the difference of the two moments may round below zero
+        double deviations = 0.0;
+        for (unsigned i = 0; i < _pop.size(); ++i)
+        {
+            FitT deviation = _pop[i].fitness() - value().first;
+            deviations += deviation * deviation;
+        }
+        value().second = _pop.size() > 1 ? sqrt( deviations / (n - 1.0) ) : 0.0; // stdev
     }
 
     virtual std::string className(void) const { return "eoSecondMomentStats"; }
-- 
2.43.0


From fa790c3ac229b8cf695f61e7668e26381e5628f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:41 +0000
Subject: [PATCH 048/160] fix: keep the interquartile range positive when
 minimizing

The interquartile range was negative for minimised fitnesses.
---
 eo/src/utils/eoStat.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eo/src/utils/eoStat.h b/eo/src/utils/eoStat.h
index 4e51a5f..2e62008 100644
--- a/eo/src/utils/eoStat.h
+++ b/eo/src/utils/eoStat.h
@@ -564,6 +564,10 @@ public:
             typename EOT::Fitness Q3 = pop[quartile*3].fitness();
 
             value() = Q3 - Q1;
+            // when minimizing, the third quartile has the lower value
+            if( static_cast<double>( value() ) < 0 ) {
+                value() = Q1 - Q3;
+            }
         }
     }
 
-- 
2.43.0


From 60e7e8c828dc73136bae94b460fff2fca4d645b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:41 +0000
Subject: [PATCH 049/160] fix: dump at most the whole population

Dumping more individuals than the population holds read past its end.
---
 eo/src/utils/eoPopStat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoPopStat.h b/eo/src/utils/eoPopStat.h
index 8102af0..3598c2a 100644
--- a/eo/src/utils/eoPopStat.h
+++ b/eo/src/utils/eoPopStat.h
@@ -70,7 +70,7 @@ that are written by the monitor it is probably used from.
 void operator()(const eoPop<EOT>& _pop)
 {
   value() = "\n# ====== pop dump =====\n";
-  unsigned howmany=combien?combien:_pop.size();
+  unsigned howmany=(combien && combien<_pop.size())?combien:_pop.size();
   for (unsigned i = 0; i < howmany; ++i)
   {
       std::ostringstream os;
@@ -120,7 +120,7 @@ public:
     void operator()(const std::vector<const EOT*>& _pop)
         {
     value() = "";                  // empty
-    unsigned howMany=combien?combien:_pop.size();
+    unsigned howMany=(combien && combien<_pop.size())?combien:_pop.size();
     for (unsigned i = 0; i < howMany; ++i)
       {
         std::ostringstream os;
-- 
2.43.0


From 949c1f1fb756df9f2eada7c901931df67ea1c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:51 +0000
Subject: [PATCH 050/160] fix: include the standard map header in the strongly
 typed operators

the strongly typed tree operators could not be compiled at all (they included <map.h>).
---
 eo/src/gp/eoStParseTreeOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/gp/eoStParseTreeOp.h b/eo/src/gp/eoStParseTreeOp.h
index d5b520b..64a9fdf 100644
--- a/eo/src/gp/eoStParseTreeOp.h
+++ b/eo/src/gp/eoStParseTreeOp.h
@@ -30,7 +30,7 @@
 
 #include "../EO.h"
 #include "../eoOp.h"
-#include <map.h>
+#include <map>
 #include <iostream>
 #include <set>
 
-- 
2.43.0


From edc242bae99a335450a8f772deddf49addbc6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:25 +0000
Subject: [PATCH 051/160] fix: update sizes when a subtree is assigned from its
 own tree

assigning a subtree from the same tree left the sizes and depths recorded in its ancestors stale.
---
 eo/src/gp/parse_tree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index 6b9ab80..b3b5ead 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -243,7 +243,9 @@ public :
             if (s.get_root() == get_root())
         { // from the same tree, maybe a child. Don't take any chances
             subtree anotherS = s;
-            return copy(anotherS);
+            copy(anotherS);
+            updateAfterInsert();
+            return *this;
         }
 
                 copy(s);
-- 
2.43.0


From 3f4986986a4f9666fa38f628ae88cbc37a43cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:25 +0000
Subject: [PATCH 052/160] fix: keep the parents when two subtrees are swapped

swapping two subtrees swapped their parent links too and left stale sizes in the ancestors.
---
 eo/src/gp/parse_tree.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index b3b5ead..e34ed0e 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -383,12 +383,11 @@ public :
         adopt();
         y.adopt();
 
-        do_the_swap(parent, y.parent);
-
         do_the_swap(_cumulative_size, y._cumulative_size);
         do_the_swap(_depth, y._depth);
         do_the_swap(_size, y._size);
                 updateAfterInsert();
+                y.updateAfterInsert();
         }
 
 protected :
-- 
2.43.0


From 40e9e45bf61f918cdc3cbb395cb54bbfabe85f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:53 +0000
Subject: [PATCH 053/160] fix: match argument types in the strongly typed point
 mutation

the strongly typed point mutation put a node over arguments of the wrong types.
---
 eo/src/gp/eoStParseTreeOp.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/eo/src/gp/eoStParseTreeOp.h b/eo/src/gp/eoStParseTreeOp.h
index 64a9fdf..e328d7d 100644
--- a/eo/src/gp/eoStParseTreeOp.h
+++ b/eo/src/gp/eoStParseTreeOp.h
@@ -240,10 +240,22 @@ public:
         int i = rng.random(_eo1.size());
         int arity = _eo1[i].arity();
         int type = _eo1[i]->type();
-        int j = rng.random(node[type][arity].size());
 
-
-        _eo1[i] = node[type][arity][j];
+        // the arguments of the node stay, so its argument types have to match too
+        std::vector<Node> possible_nodes;
+        const std::vector<Node>& same = node[type][arity];
+        for (unsigned int n = 0; n < same.size(); n++)
+        {
+                bool match = true;
+                for (int k = 0; k < arity; k++)
+                        match = match && (same[n].type(k) == _eo1[i]->type(k));
+                if (match)
+                        possible_nodes.push_back(same[n]);
+        }
+        if (possible_nodes.empty())
+                return false;
+
+        _eo1[i] = possible_nodes[rng.random(possible_nodes.size())];
         return true;
   }
 
-- 
2.43.0


From b630a02b14bfff41a95299942aaa37ab293d8488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:30 +0000
Subject: [PATCH 054/160] fix: keep the fitness when an indexed swap neighbour
 is copied

copying an evaluated indexed swap neighbour lost its fitness (virtual base not copied).
---
 mo/src/problems/permutation/moIndexedSwapNeighbor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/permutation/moIndexedSwapNeighbor.h b/mo/src/problems/permutation/moIndexedSwapNeighbor.h
index 4706305..d22da57 100644
--- a/mo/src/problems/permutation/moIndexedSwapNeighbor.h
+++ b/mo/src/problems/permutation/moIndexedSwapNeighbor.h
@@ -55,7 +55,7 @@ public:
    * Copy Constructor
    * @param _n the neighbor to copy
    */
-  moIndexedSwapNeighbor(const moIndexedSwapNeighbor<EOT, Fitness> & _n) : moIndexNeighbor<EOT, Fitness>(_n)
+  moIndexedSwapNeighbor(const moIndexedSwapNeighbor<EOT, Fitness> & _n) : moNeighbor<EOT, Fitness>(_n), moIndexNeighbor<EOT, Fitness>(_n)
   {
     indices.first = _n.first();
     indices.second = _n.second();
-- 
2.43.0


From 3578152824f29e2ef9e631da9a328ae3c9fbacf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:30 +0000
Subject: [PATCH 055/160] fix: allow copying partition swap neighbours that are
 not evaluated

copying an unevaluated partition swap neighbour threw an invalid fitness error.
---
 .../problems/partition/moBinaryPartitionSwapNeighbor.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h b/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
index 8f6bc60..11cc6c8 100644
--- a/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
+++ b/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
@@ -71,7 +71,9 @@ class moBinaryPartitionSwapNeighbor :
                 , is_set(other.is_set)
             #endif
         {
-            this->fitness(other.fitness());
+            if( not other.invalid() ) {
+                this->fitness(other.fitness());
+            }
         }
 
         /** Default assignment operator.
@@ -85,7 +87,11 @@ class moBinaryPartitionSwapNeighbor :
             #ifndef NDEBUG
                 this->is_set = other.is_set;
             #endif
-            this->fitness(other.fitness());
+            if( not other.invalid() ) {
+                this->fitness(other.fitness());
+            } else {
+                this->invalidate();
+            }
             return *this;
         }
 
-- 
2.43.0


From 2ab2e49609f57fd6a15438dd90a9641eb6eec327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:30 +0000
Subject: [PATCH 056/160] fix: no swap neighbour when nothing is selected in a
 partition

a partition with nothing selected claimed to have a neighbour and the first one dereferenced the end of an empty set.
---
 mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h b/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
index d51325b..09082ec 100644
--- a/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
+++ b/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
@@ -136,7 +136,7 @@ class moBinaryPartitionSwapNeighborhood : public moNeighborhood<moBinaryPartitio
      * Essentially just tells if the rejected set is not empty.
      */
     virtual bool hasNeighbor(EOT& solution) override {
-        return solution.rejected.size() > 0;
+        return solution.rejected.size() > 0 and solution.selected.size() > 0;
     }
 
     //! Class name for state management.
-- 
2.43.0


From 152ad74c276386b1a472752c0eadb914f67228fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:30 +0000
Subject: [PATCH 057/160] fix: follow a changed size in the neighbourhood
 without replacement

after the neighbourhood size was changed the neighbourhood without replacement went outside it or read past its index table.
---
 mo/src/neighborhood/moRndWithoutReplNeighborhood.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mo/src/neighborhood/moRndWithoutReplNeighborhood.h b/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
index dfa057a..18fa9d0 100644
--- a/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
+++ b/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
@@ -80,6 +80,12 @@ public:
      */
     virtual void init(EOT & _solution, Neighbor & _neighbor) {
         unsigned int i, tmp;
+        // the size can have been changed since the last pass
+        if (indexVector.size() != neighborhoodSize) {
+            indexVector.resize(neighborhoodSize);
+            for (i = 0; i < neighborhoodSize; i++)
+                indexVector[i] = i;
+        }
         maxIndex = neighborhoodSize ;
         i = rng.random(maxIndex);
         _neighbor.index(_solution, indexVector[i]);
-- 
2.43.0


From c82d73c658e339d492c4bc4d25b2db5132f20adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:30 +0000
Subject: [PATCH 058/160] fix: avoid overflow when counting the neighbours at a
 distance

factorials overflowed when counting the neighbours at distance 13 or more (or in long strings), so the neighbourhood was incomplete.
---
 mo/src/problems/bitString/moBitsNeighborhood.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mo/src/problems/bitString/moBitsNeighborhood.h b/mo/src/problems/bitString/moBitsNeighborhood.h
index 2d4557f..fbea989 100644
--- a/mo/src/problems/bitString/moBitsNeighborhood.h
+++ b/mo/src/problems/bitString/moBitsNeighborhood.h
@@ -80,17 +80,13 @@ public:
      * @param d Hamming distance
      */
     unsigned int numberOfNeighbors(unsigned d) {
-        unsigned int fact_nBits = 1;
+        // each intermediate value is a binomial coefficient: factorials would overflow
+        unsigned long long number = 1;
         
         for(unsigned k = 1; k <= d; k++)
-            fact_nBits *= k;
+            number = number * (length - d + k) / k;
         
-        unsigned int fact_length = 1;
-        
-        for(unsigned k = length; k > length - d; k--)
-            fact_length *= k;
-        
-        return fact_length / fact_nBits;
+        return number;
     }
     
     /**
-- 
2.43.0


From b134448f8637a1641996a47b1094e89e0021afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:30 +0000
Subject: [PATCH 059/160] fix: choose the distance of a random bits neighbour

the distance of a random neighbour was searched the wrong way: it read past the table and flipped more bits than allowed.
---
 mo/src/problems/bitString/moBitsWithReplNeighborhood.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/bitString/moBitsWithReplNeighborhood.h b/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
index 34d2a96..bb390ed 100644
--- a/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
+++ b/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
@@ -131,7 +131,7 @@ public:
       unsigned n = rng.random(neighborhoodSize);
 
       unsigned d = 1;
-      while (n < nSize[d - 1]) d++;
+      while (n >= nSize[d - 1]) d++;
 
       randomNeighbor(_solution, _neighbor, d);
     }
-- 
2.43.0


From 0aa06c0304438221a797507f5cbe508f0e4e1f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:30 +0000
Subject: [PATCH 060/160] fix: Count only the used bits in incremental one-max

one-max incremental evaluation of a several-bits neighbour counts stale entries of its bit list.
---
 mo/src/problems/eval/moOneMaxBitsIncrEval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/eval/moOneMaxBitsIncrEval.h b/mo/src/problems/eval/moOneMaxBitsIncrEval.h
index 5758d3c..f74509e 100644
--- a/mo/src/problems/eval/moOneMaxBitsIncrEval.h
+++ b/mo/src/problems/eval/moOneMaxBitsIncrEval.h
@@ -50,7 +50,7 @@ public:
     virtual void operator()(EOT & _solution, Neighbor & _neighbor) {
       int delta = 0;
 
-      for(unsigned i = 0; i < _neighbor.bits.size(); i++) 	
+      for(unsigned i = 0; i < _neighbor.nBits; i++) 	
         if (_solution[_neighbor.bits[i]] == 0)
 	  delta++;
         else
-- 
2.43.0


From ddd9255b67ec16ba5583d94667181a3ac928a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:30 +0000
Subject: [PATCH 061/160] fix: Ignore an incomplete last block in incremental
 royal road

royal road incremental evaluation reads past the end and counts an incomplete last block.
---
 mo/src/problems/eval/moRoyalRoadIncrEval.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mo/src/problems/eval/moRoyalRoadIncrEval.h b/mo/src/problems/eval/moRoyalRoadIncrEval.h
index 3296ab2..14e34b2 100644
--- a/mo/src/problems/eval/moRoyalRoadIncrEval.h
+++ b/mo/src/problems/eval/moRoyalRoadIncrEval.h
@@ -60,6 +60,12 @@ public:
         // complete block?
         unsigned int offset = n * k;
 
+        // the bits after the last complete block do not count
+        if (offset + k > _solution.size()) {
+            _neighbor.fitness(_solution.fitness());
+            return;
+        }
+
         unsigned int j = 0;
         while (j < k && _solution[offset + j]) j++;
 
-- 
2.43.0


From c9edc6c778faf7e453434a9b39a322bdb5bd1f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:30 +0000
Subject: [PATCH 062/160] fix: Do not rely on the sign of clause numbers in
 incremental max-SAT

max-SAT incremental evaluation is wrong for negative literals of clause 0 and of instances read from a file.
---
 mo/src/problems/eval/moMaxSATincrEval.h | 35 +++++++++----------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/mo/src/problems/eval/moMaxSATincrEval.h b/mo/src/problems/eval/moMaxSATincrEval.h
index 69dfbdb..845acb7 100644
--- a/mo/src/problems/eval/moMaxSATincrEval.h
+++ b/mo/src/problems/eval/moMaxSATincrEval.h
@@ -66,34 +66,25 @@ public :
         unsigned int size = modifiedClauses.size();
 
         int nc;
-        bool litt;
+        bool before, after;
 
         for (unsigned int k = 0; k < size; k++) {
             // number of the clause
             nc = modifiedClauses[k];
 
-            // negative means that the not(variable) is in the clause
-            if (nc < 0) {
+            // the sign is not enough to know the litteral (clause 0), so the clause is evaluated before and after the flip
+            if (nc < 0)
                 nc = - nc;
-                litt = !_solution[bit];
-            } else
-                litt = _solution[bit];
-
-            if (litt) {
-                // the litteral was true and becomes false
-                _solution[bit] = !_solution[bit];
-
-                if (!fulleval.clauseEval(nc, _solution))
-                    // the clause was true and becomes false
-                    delta--;
-
-                _solution[bit] = !_solution[bit];
-            } else {
-                // the litteral was false and becomes true
-                if (!fulleval.clauseEval(nc, _solution))
-                    // the clause was false and becomes true
-                    delta++;
-            }
+
+            before = fulleval.clauseEval(nc, _solution);
+            _solution[bit] = !_solution[bit];
+            after = fulleval.clauseEval(nc, _solution);
+            _solution[bit] = !_solution[bit];
+
+            if (before && !after)
+                delta--;
+            else if (!before && after)
+                delta++;
         }
 
         _neighbor.fitness(_solution.fitness() + delta);
-- 
2.43.0


From 85fc133a8cfd8026908765487decefce6b28ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:53 +0000
Subject: [PATCH 063/160] fix: Keep an empty tabu list of capacity zero

a tabu list of capacity 0 divides by zero at the first move.
---
 mo/src/memory/moNeighborVectorTabuList.h | 2 +-
 mo/src/memory/moSolVectorTabuList.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/memory/moNeighborVectorTabuList.h b/mo/src/memory/moNeighborVectorTabuList.h
index 5e8f8ee..e3287a1 100644
--- a/mo/src/memory/moNeighborVectorTabuList.h
+++ b/mo/src/memory/moNeighborVectorTabuList.h
@@ -75,7 +75,7 @@ public:
             tmp.second=howlong;
             tabuList.push_back(tmp);
         }
-        else {
+        else if (maxSize > 0) {
             tabuList[index%maxSize].first = _neighbor;
             tabuList[index%maxSize].second = howlong;
             index++;
diff --git a/mo/src/memory/moSolVectorTabuList.h b/mo/src/memory/moSolVectorTabuList.h
index 31c57c0..e2aab34 100644
--- a/mo/src/memory/moSolVectorTabuList.h
+++ b/mo/src/memory/moSolVectorTabuList.h
@@ -75,7 +75,7 @@ public:
             tmp.second=howlong;
             tabuList.push_back(tmp);
         }
-        else {
+        else if (maxSize > 0) {
             tabuList[index%maxSize].first = _sol;
             tabuList[index%maxSize].second = howlong;
             index++;
-- 
2.43.0


From 05f6e245dd75bdc27e4d27e895f3288cd08153bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:53 +0000
Subject: [PATCH 064/160] fix: Do not read past the end of an indexed tabu list

checking a move whose index is beyond the size of an indexed tabu list reads out of bounds.
---
 mo/src/memory/moIndexedVectorTabuList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/memory/moIndexedVectorTabuList.h b/mo/src/memory/moIndexedVectorTabuList.h
index b567426..ad1e126 100644
--- a/mo/src/memory/moIndexedVectorTabuList.h
+++ b/mo/src/memory/moIndexedVectorTabuList.h
@@ -111,7 +111,7 @@ public:
      * @return true if tabuList contains _sol
      */
     virtual bool check(EOT & /*_sol*/, Neighbor & _neighbor) {
-      return (tabuList[_neighbor.index()] > 0);
+      return (_neighbor.index() < maxSize && tabuList[_neighbor.index()] > 0);
     }
 
     /**
-- 
2.43.0


From 7432ba6c85856be7181c29f46e0493e641a395c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:53 +0000
Subject: [PATCH 065/160] fix: Evaluate the solution after a diversification

tabu search with a diversification operator that leaves the old fitness goes on with a stale fitness.
---
 mo/src/memory/moMonOpDiversification.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo/src/memory/moMonOpDiversification.h b/mo/src/memory/moMonOpDiversification.h
index 46fa854..1c335f1 100644
--- a/mo/src/memory/moMonOpDiversification.h
+++ b/mo/src/memory/moMonOpDiversification.h
@@ -59,6 +59,7 @@ public:
      */
     bool operator()(EOT& _solution) {
         bool res = monOp(_solution);
+        _solution.invalidate();
         fullEval(_solution);
         return res;
     }
-- 
2.43.0


From b3cf440c4251eeb3dbd6f64dfc0252006e129183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:53 +0000
Subject: [PATCH 066/160] fix: Stop after the only neighbourhood when not
 cycling

a non-cycling variable-neighbourhood selection of one neighbourhood never ends.
---
 mo/src/neighborhood/moForwardVectorVNSelection.h | 2 +-
 mo/src/neighborhood/moRndVectorVNSelection.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/neighborhood/moForwardVectorVNSelection.h b/mo/src/neighborhood/moForwardVectorVNSelection.h
index d469cf6..879de80 100644
--- a/mo/src/neighborhood/moForwardVectorVNSelection.h
+++ b/mo/src/neighborhood/moForwardVectorVNSelection.h
@@ -70,7 +70,7 @@ public:
    * @return true if there is some heuristics
    */
   virtual bool cont(EOT& /*_solution*/){
-    return (cycle || (current <= (LSvector.size() - 2)));
+    return (cycle || (current + 1 < LSvector.size()));
   }
 
   /**
diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 27780f2..ce9f228 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -73,7 +73,7 @@ public:
    * @return true if there is some heuristics
    */
   virtual bool cont(EOT& /*_solution*/){
-    return ( cycle || (currentOrder <= (order.size() - 2)) );
+    return ( cycle || (currentOrder + 1 < order.size()) );
   }
 
   /**
-- 
2.43.0


From f4973755bb738878fc3d21e49474d4c89be6a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:58 +0000
Subject: [PATCH 067/160] fix: Forget the end of the previous run in
 variable-neighbourhood search

a variable-neighbourhood search whose first run exhausted its neighbourhoods stops after one iteration in later runs.
---
 mo/src/explorer/moVNSexplorer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo/src/explorer/moVNSexplorer.h b/mo/src/explorer/moVNSexplorer.h
index b7633c2..180e1a5 100644
--- a/mo/src/explorer/moVNSexplorer.h
+++ b/mo/src/explorer/moVNSexplorer.h
@@ -78,6 +78,7 @@ public:
     selection.init(_solution);
     // for the first ls, the solution will be improved, so the next ls must be applied
     first = true;
+    stop = false;
   }
 
   /**
-- 
2.43.0


From 4a99917f4c6923c77751810ac24c837d7dc5a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:57 +0000
Subject: [PATCH 068/160] fix: take the first solution of later runs into
 account in kept best statistics

the best-so-far statistics that survive a new initialisation ignored the solution a later run starts from (best fitness of all runs below the one seen).
---
 mo/src/continuator/moBestFitnessStat.h | 2 ++
 mo/src/continuator/moBestSoFarStat.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mo/src/continuator/moBestFitnessStat.h b/mo/src/continuator/moBestFitnessStat.h
index 192919c..07a6abf 100644
--- a/mo/src/continuator/moBestFitnessStat.h
+++ b/mo/src/continuator/moBestFitnessStat.h
@@ -66,6 +66,8 @@ public :
     			value() = _sol.fitness();
     			firstTime = false;
     		}
+    	else
+    		operator()(_sol);
     }
 
     /**
diff --git a/mo/src/continuator/moBestSoFarStat.h b/mo/src/continuator/moBestSoFarStat.h
index fa57971..5bff019 100644
--- a/mo/src/continuator/moBestSoFarStat.h
+++ b/mo/src/continuator/moBestSoFarStat.h
@@ -65,6 +65,8 @@ public :
     			value() = _sol;
     			firstTime = false;
     		}
+    	else
+    		operator()(_sol);
     }
 
     /**
-- 
2.43.0


From b6c30a71edb636473026169a6cefd939affae9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:57 +0000
Subject: [PATCH 069/160] fix: count calls, not statistics, for the interval of
 a local search checkpoint

with an interval above 1 and a number of statistics other than 1 the checkpoint computed some statistics at the wrong iterations and others never.
---
 mo/src/continuator/moCheckpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/continuator/moCheckpoint.h b/mo/src/continuator/moCheckpoint.h
index 37b5cd6..b3631e6 100644
--- a/mo/src/continuator/moCheckpoint.h
+++ b/mo/src/continuator/moCheckpoint.h
@@ -138,8 +138,8 @@ public :
         for (i = 0; i < stats.size(); ++i) {
             if (counter % interval == 0)
                 (*stats[i])(_sol);
-            counter++;
         }
+        counter++;
 
         for (i = 0; i < updaters.size(); ++i)
             (*updaters[i])();
-- 
2.43.0


From 7eb73affdcb87f4d03f981da17a01d75af0b3e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:57 +0000
Subject: [PATCH 070/160] fix: do not return a negative standard deviation

the standard deviation of constant values came out negative by rounding.
---
 mo/src/sampling/moStatistics.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo/src/sampling/moStatistics.h b/mo/src/sampling/moStatistics.h
index 7c74cbc..ecc64ea 100644
--- a/mo/src/sampling/moStatistics.h
+++ b/mo/src/sampling/moStatistics.h
@@ -94,6 +94,8 @@ public:
             std = (std / n) - avg * avg ;
             if (std > 0)
                 std = sqrt(std);
+            else
+                std = 0.0;
         }
     }
 
-- 
2.43.0


From 5f705137ced20e78055c660a9cf0c2a420f6926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:57 +0000
Subject: [PATCH 071/160] fix: allow an autocorrelation of order 0

asking for autocorrelations up to lag 0 wrote outside the matrix of partial autocorrelations.
---
 mo/src/sampling/moStatistics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo/src/sampling/moStatistics.h b/mo/src/sampling/moStatistics.h
index ecc64ea..319b0dc 100644
--- a/mo/src/sampling/moStatistics.h
+++ b/mo/src/sampling/moStatistics.h
@@ -203,7 +203,8 @@ public:
             //double phi2[nbS+1][nbS+1];
             double tmp1, tmp2;
 
-            phi2[1][1] = rho[1];
+            if (nbS > 0)
+                phi2[1][1] = rho[1];
             for (k = 2; k <= nbS; k++) {
                 tmp1 = 0;
                 tmp2 = 0;
-- 
2.43.0


From 0a9b6b9e8da235a7574116f8a8d3dda10c731840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:57 +0000
Subject: [PATCH 072/160] fix: read scalar fitnesses through their own type in
 the vector monitor

a monitored minimising fitness was read through a cast to an unrelated parameter type (undefined behaviour, garbage unless the scalar type is double).
---
 mo/src/continuator/moVectorMonitor.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mo/src/continuator/moVectorMonitor.h b/mo/src/continuator/moVectorMonitor.h
index 30c3317..c169376 100644
--- a/mo/src/continuator/moVectorMonitor.h
+++ b/mo/src/continuator/moVectorMonitor.h
@@ -36,6 +36,7 @@
 #define moVectorMonitor_h
 
 #include <fstream>
+#include <functional>
 #include <utils/eoMonitor.h>
 #include <utils/eoParam.h>
 
@@ -104,7 +105,7 @@ public:
 	 * @param _param the parameter of type eoScalarFitness to save in the vector
 	 */
 	template <class Compare>
-	moVectorMonitor(eoValueParam<eoScalarFitness<long long int, Compare> > & _param) : doubleParam(NULL), intParam(NULL), intLongParam(NULL), intLongLongParam(& (eoValueParam<long long int>&)_param), eotParam(NULL)
+	moVectorMonitor(eoValueParam<eoScalarFitness<long long int, Compare> > & _param) : doubleParam(NULL), intParam(NULL), intLongParam(NULL), intLongLongParam(NULL), eotParam(NULL), fitnessParam(&_param), fitnessValue([&_param] { return (double) (long long int) _param.value(); })
 	{ 
 		// precision of the output by default
 		precisionOutput = std::cout.precision();
@@ -115,7 +116,7 @@ public:
 	 * @param _param the parameter of type eoScalarFitness to save in the vector
 	 */
 	template <class ScalarType, class Compare>
-	moVectorMonitor(eoValueParam<eoScalarFitness<ScalarType, Compare> > & _param) : doubleParam( & (eoValueParam<double>&)_param), intParam(NULL), intLongParam(NULL), intLongLongParam(NULL), eotParam(NULL)
+	moVectorMonitor(eoValueParam<eoScalarFitness<ScalarType, Compare> > & _param) : doubleParam(NULL), intParam(NULL), intLongParam(NULL), intLongLongParam(NULL), eotParam(NULL), fitnessParam(&_param), fitnessValue([&_param] { return (double) (ScalarType) _param.value(); })
 	{ 
 		// precision of the output by default
 		precisionOutput = std::cout.precision();
@@ -158,7 +159,10 @@ public:
 		if (intLongLongParam != NULL) 
 		  valueVec.push_back((double) intLongLongParam->value());
 		else 
-		  eotVec.push_back(eotParam->value());
+		  if (fitnessParam != NULL)
+		    valueVec.push_back(fitnessValue());
+		  else
+		    eotVec.push_back(eotParam->value());
 	  return *this ;
 	}
 
@@ -216,7 +220,10 @@ public:
 		if (intLongLongParam != NULL)
 		  return intLongLongParam->longName();
 		else 
-		  return eotParam->longName();
+		  if (fitnessParam != NULL)
+		    return fitnessParam->longName();
+		  else
+		    return eotParam->longName();
 	}
 
 	/**
@@ -288,6 +295,9 @@ protected:
 	eoValueParam<unsigned long> * intLongParam ;
 	eoValueParam<long long int> * intLongLongParam ;
 	eoValueParam<EOT> * eotParam ;
+	// fitness (eoScalarFitness) to save, and how to read it
+	eoParam * fitnessParam = NULL;
+	std::function<double()> fitnessValue;
 
 	std::vector<double> valueVec;
 	std::vector<EOT> eotVec;
-- 
2.43.0


From a63340a7f9f6a426b804fb10c1c5272f95067270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:40 +0000
Subject: [PATCH 073/160] fix: compare multi-objective individuals with >
 through their objective vectors

operator> of multi-objective individuals read the unset single-objective fitness and threw.
---
 moeo/src/core/MOEO.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/moeo/src/core/MOEO.h b/moeo/src/core/MOEO.h
index 061af30..a06ad40 100644
--- a/moeo/src/core/MOEO.h
+++ b/moeo/src/core/MOEO.h
@@ -308,6 +308,16 @@ class MOEO : public EO < MOEOObjectiveVector >
       }
 
 
+    /**
+     * Returns true if _other is smaller than the current solution (see operator<), EO's own fitness being unused here.
+     * @param _other the other MOEO object to compare with
+     */
+    bool operator>(const MOEO & _other) const
+      {
+        return _other < *this;
+      }
+
+
     /**
      * Return the class id (the class name as a std::string)
      */
-- 
2.43.0


From 224ff364a466ac224b1e4a9e90e304cad9f51872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:40 +0000
Subject: [PATCH 074/160] fix: take objective directions into account in
 g-dominance

g-dominance flagged vectors against the reference point as if every objective were minimised.
---
 moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h b/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h
index ecdb540..1bf789f 100644
--- a/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h
+++ b/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h
@@ -103,7 +103,7 @@ class moeoGDominanceObjectiveVectorComparator : public moeoObjectiveVectorCompar
       unsigned int result=1;
       for (unsigned int i=0; i<ref.nObjectives(); i++)
         {
-          if (_objectiveVector[i] > ref[i])
+          if (ref.minimizing(i) ? _objectiveVector[i] > ref[i] : _objectiveVector[i] < ref[i])
             {
               result=0;
             }
@@ -113,7 +113,7 @@ class moeoGDominanceObjectiveVectorComparator : public moeoObjectiveVectorCompar
           result=1;
           for (unsigned int i=0; i<ref.nObjectives(); i++)
             {
-              if (_objectiveVector[i] < ref[i])
+              if (ref.minimizing(i) ? _objectiveVector[i] < ref[i] : _objectiveVector[i] > ref[i])
                 {
                   result=0;
                 }
-- 
2.43.0


From c9fdad217e05aaf0918a05ac0d965b1c1b05574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:40 +0000
Subject: [PATCH 075/160] fix: reject an objective index equal to the number of
 objectives

the one-objective comparator accepted an index one past the last objective.
---
 moeo/src/comparator/moeoOneObjectiveComparator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/comparator/moeoOneObjectiveComparator.h b/moeo/src/comparator/moeoOneObjectiveComparator.h
index f354385..4abca86 100644
--- a/moeo/src/comparator/moeoOneObjectiveComparator.h
+++ b/moeo/src/comparator/moeoOneObjectiveComparator.h
@@ -54,7 +54,7 @@ class moeoOneObjectiveComparator : public moeoComparator < MOEOT >
      */
     moeoOneObjectiveComparator(unsigned int _obj) : obj(_obj)
     {
-      if (obj > MOEOT::ObjectiveVector::nObjectives())
+      if (obj >= MOEOT::ObjectiveVector::nObjectives())
         {
           throw eoException("Problem with the index of objective in moeoOneObjectiveComparator");
         }
-- 
2.43.0


From b51386aa7014e25c9aa1bfd8acc8e2c22234d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:36 +0000
Subject: [PATCH 076/160] fix: make the two-objective archive's ordering
 callable on a const object

the two-objective hypervolume archive could not be instantiated in C++17: its ordering was not callable as const.
---
 moeo/src/archive/moeo2DMinHypervolumeArchive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeo2DMinHypervolumeArchive.h b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
index de022bb..e027d8d 100644
--- a/moeo/src/archive/moeo2DMinHypervolumeArchive.h
+++ b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
@@ -51,7 +51,7 @@ struct comp
 {
 	// returns a "before" b
 	// all objectives = min
-	bool operator() (const MOEOT & a, const MOEOT & b)
+	bool operator() (const MOEOT & a, const MOEOT & b) const
 	{
 		return  ((a.objectiveVector()[1] < b.objectiveVector()[1]) || ((a.objectiveVector()[1] == b.objectiveVector()[1]) && (a.objectiveVector()[0] < b.objectiveVector()[0])));
 	}
-- 
2.43.0


From fc0597735cc26a1c6476511e3b4f76ab2a66089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:03 +0000
Subject: [PATCH 077/160] fix: normalise objectives whose bounds coincide

scaling an objective with equal bounds divided by zero: the resulting NaN coordinates let the epsilon-box archive hold equal and dominated solutions.
---
 moeo/src/utils/moeoObjectiveVectorNormalizer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moeo/src/utils/moeoObjectiveVectorNormalizer.h b/moeo/src/utils/moeoObjectiveVectorNormalizer.h
index c6d1588..8f00c95 100644
--- a/moeo/src/utils/moeoObjectiveVectorNormalizer.h
+++ b/moeo/src/utils/moeoObjectiveVectorNormalizer.h
@@ -147,7 +147,7 @@ class moeoObjectiveVectorNormalizer
 			Scale res;
 			for (unsigned i=0;i<_boundaries.size();i++){
 				std::vector<Type> coeff;
-				coeff.push_back(max/(_boundaries[i].maximum()-_boundaries[i].minimum()));
+				coeff.push_back(_boundaries[i].maximum()==_boundaries[i].minimum()?1:max/(_boundaries[i].maximum()-_boundaries[i].minimum()));
 				coeff.push_back(_boundaries[i].minimum());
 				res.push_back(coeff);
 			}
@@ -165,7 +165,7 @@ class moeoObjectiveVectorNormalizer
 			unsigned int dim=MOEOT::ObjectiveVector::nObjectives();
 			for (unsigned i=0;i<dim;i++){
 				std::vector<Type> coeff;
-				coeff.push_back(max/(bounds.maximum()-bounds.minimum()));
+				coeff.push_back(bounds.maximum()==bounds.minimum()?1:max/(bounds.maximum()-bounds.minimum()));
 				coeff.push_back(bounds.minimum());
 				res.push_back(coeff);
 			}
@@ -183,7 +183,7 @@ class moeoObjectiveVectorNormalizer
 			Scale res;
 			for (unsigned i=0;i<worst.nObjectives();i++){
 				std::vector<Type> coeff;
-				coeff.push_back(max/(worst[i]-best[i]));
+				coeff.push_back(worst[i]==best[i]?1:max/(worst[i]-best[i]));
 				coeff.push_back(best[i]);
 				res.push_back(coeff);
 			}
-- 
2.43.0


From 65b1b613e62e56567a006016ba0f9d2b3ff88280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:03 +0000
Subject: [PATCH 078/160] fix: keep the best solutions when a bounded archive
 overflows

an overflowing fitness/diversity bounded archive sorted its worst solutions first and kept them.
---
 moeo/src/archive/moeoFitDivBoundedArchive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeoFitDivBoundedArchive.h b/moeo/src/archive/moeoFitDivBoundedArchive.h
index 32e13ec..bd5e8f6 100644
--- a/moeo/src/archive/moeoFitDivBoundedArchive.h
+++ b/moeo/src/archive/moeoFitDivBoundedArchive.h
@@ -156,7 +156,7 @@ private:
          */
         bool operator()(const MOEOT & _moeo1, const MOEOT & _moeo2)
         {
-            return comp(_moeo1,_moeo2);
+            return comp(_moeo2,_moeo1);
         }
     private:
         /** the comparator */
-- 
2.43.0


From 9bf99c5b8f28c0be8dd4ca9a3e650054dfb48ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:16 +0000
Subject: [PATCH 079/160] fix: stay within the offered population in the SPEA2
 archive

offering a population that the full SPEA2 archive consumed entirely, or an empty one, read past its end.
---
 moeo/src/archive/moeoSPEA2Archive.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/archive/moeoSPEA2Archive.h b/moeo/src/archive/moeoSPEA2Archive.h
index d2c64b8..2a258a5 100644
--- a/moeo/src/archive/moeoSPEA2Archive.h
+++ b/moeo/src/archive/moeoSPEA2Archive.h
@@ -178,7 +178,7 @@ public:
             i=0;
 
             //While we have a better element in pop than the worst <= -1 in the archive, replace the worst(of archive) by the best(of pop)
-            while ( (i<borne) && ( (operator[](i).fitness()+operator[](i).diversity()) < (copy_pop[j].fitness + copy_pop[j].diversity) ) && (operator[](i).fitness()<=-1) && ( j < copy_pop.size() ) )
+            while ( (i<borne) && ( j < copy_pop.size() ) && ( (operator[](i).fitness()+operator[](i).diversity()) < (copy_pop[j].fitness + copy_pop[j].diversity) ) && (operator[](i).fitness()<=-1) )
             {
                 operator[](i)= back();
                 pop_back();
@@ -188,7 +188,7 @@ public:
             }
 
             //If their are others goods elements in pop (fitness=0) , keep only archive's size elements between the archive's elements and the good element in the pop (k ieme smallest distance is used)
-            if (copy_pop[j].fitness > -1)
+            if ( ( j < copy_pop.size() ) && (copy_pop[j].fitness > -1) )
             {
                 unsigned int inf=j;
                 unsigned int p;
-- 
2.43.0


From 0cbf4f17d11e6c6cbaa3f85bfd221e87dbbe6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:16 +0000
Subject: [PATCH 080/160] fix: do not look past the last solution of the
 two-objective archive

offering a solution just before the last one of a full two-objective hypervolume archive dereferenced its end.
---
 moeo/src/archive/moeo2DMinHypervolumeArchive.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeo2DMinHypervolumeArchive.h b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
index e027d8d..2dc176f 100644
--- a/moeo/src/archive/moeo2DMinHypervolumeArchive.h
+++ b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
@@ -341,7 +341,11 @@ protected:
 				res= _objVec[0] - (*hint).objectiveVector()[0];
 				tmp=(*hint).objectiveVector()[1];
 				hint++;
-				res*= ((*hint).objectiveVector()[1] - tmp);
+				if (hint==end())
+					// the successor is the last one
+					res=maxValue;
+				else
+					res*= ((*hint).objectiveVector()[1] - tmp);
 				hint--;
 			}
 		}
-- 
2.43.0


From b4290a7d89238143b56128a5b8a1e411deb1a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:46 +0000
Subject: [PATCH 081/160] fix: initialise the result of inserting a population
 in the epsilon-box archive

inserting a population in the epsilon-box archive returned an uninitialised value.
---
 moeo/src/archive/moeoEpsilonHyperboxArchive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeoEpsilonHyperboxArchive.h b/moeo/src/archive/moeoEpsilonHyperboxArchive.h
index 7ea2e1f..3af4814 100644
--- a/moeo/src/archive/moeoEpsilonHyperboxArchive.h
+++ b/moeo/src/archive/moeoEpsilonHyperboxArchive.h
@@ -231,7 +231,7 @@ public:
      */
     bool operator()(const eoPop < MOEOT > & _pop)
     {
-    	bool res, tmp = false;
+    	bool res = false, tmp = false;
     	for(unsigned int i=0; i<_pop.size(); i++){
     		tmp = (*this)(_pop[i]);
     		res = res || tmp;
-- 
2.43.0


From f015ff9fb34cb459f9cd46d401b7603e63f0c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:07 +0000
Subject: [PATCH 082/160] fix: give the Manhattan distance the return type of
 its base

the Manhattan distance could not be instantiated: its return type conflicted with the one it overrides.
---
 moeo/src/distance/moeoManhattanDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoManhattanDistance.h b/moeo/src/distance/moeoManhattanDistance.h
index 37d70c8..ac818e6 100644
--- a/moeo/src/distance/moeoManhattanDistance.h
+++ b/moeo/src/distance/moeoManhattanDistance.h
@@ -74,7 +74,7 @@ class moeoManhattanDistance : public moeoObjSpaceDistance < MOEOT >
      * @param _obj1 the first objective vector
      * @param _obj2 the second objective vector
      */
-    double operator()(const ObjectiveVector & _obj1, const ObjectiveVector & _obj2)
+    const Fitness operator()(const ObjectiveVector & _obj1, const ObjectiveVector & _obj2)
     {
       double result = 0.0;
       double tmp1, tmp2;
-- 
2.43.0


From b9155954f4b0da399c7d78539d8b311919159f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:52 +0000
Subject: [PATCH 083/160] fix: order tied solutions by the direction of each
 objective when peeling two-objective fronts

with one minimised and one maximised objective, solutions tied on the first one shared a front with those dominating them.
---
 .../moeoDominanceDepthFitnessAssignment.h     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
index 96f295b..dea752c 100644
--- a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
+++ b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
@@ -39,8 +39,8 @@
 #define MOEODOMINANCEDEPTHFITNESSASSIGNMENT_H_
 
 #include <vector>
+#include <cmath>
 #include <eoPop.h>
-#include <comparator/moeoObjectiveObjectiveVectorComparator.h>
 #include <comparator/moeoObjectiveVectorComparator.h>
 #include <comparator/moeoParetoObjectiveVectorComparator.h>
 #include <fitness/moeoDominanceBasedFitnessAssignment.h>
@@ -149,20 +149,21 @@ private:
     {
     public:
         /**
-         * Returns true if _moeo1 > _moeo2 on the first objective, then on the second, and so on
+         * Returns true if _moeo1 is better than _moeo2 on the first objective, then on the second, and so on
          * @param _moeo1 the first solution
          * @param _moeo2 the second solution
          */
         bool operator()(const MOEOT & _moeo1, const MOEOT & _moeo2)
         {
-            if (MOEOT::ObjectiveVector::maximizing(0))
-                return cmp(_moeo2.objectiveVector(), _moeo1.objectiveVector());
-            else
-                return cmp(_moeo1.objectiveVector(), _moeo2.objectiveVector());
+            const ObjectiveVector & obj1 = _moeo1.objectiveVector();
+            const ObjectiveVector & obj2 = _moeo2.objectiveVector();
+            for (unsigned int i=0; i<ObjectiveVector::nObjectives(); i++)
+            {
+                if ( fabs(obj1[i] - obj2[i]) > ObjectiveVector::Traits::tolerance() )
+                    return ObjectiveVector::maximizing(i) ? obj1[i] > obj2[i] : obj1[i] < obj2[i];
+            }
+            return false;
         }
-    private:
-        /** the corresponding comparator for objective vectors */
-        moeoObjectiveObjectiveVectorComparator < ObjectiveVector > cmp;
     }
     objComparator;
     
-- 
2.43.0


From 3f8e644958ce67972256354dc8d42f1c08a45012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:52 +0000
Subject: [PATCH 084/160] fix: accept an empty population in the dominance
 depth assignment

assigning dominance depth to an empty population read its first individual.
---
 moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
index dea752c..2f4b1d2 100644
--- a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
+++ b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
@@ -83,6 +83,8 @@ public:
      */
     void operator()(eoPop < MOEOT > & _pop)
     {
+        if (_pop.empty())
+            return;
         // number of objectives for the problem under consideration
         unsigned int nObjectives = MOEOT::ObjectiveVector::nObjectives();
         if (nObjectives == 1)
-- 
2.43.0


From b22e669e8a414c960da746e4853703f1d666e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:33 +0000
Subject: [PATCH 085/160] fix: forget the copies of the previous population in
 the dominance matrix

the dominance matrix kept the indices of earlier copies: later populations got wrong ranks or were indexed out of bounds.
---
 moeo/src/utils/moeoDominanceMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moeo/src/utils/moeoDominanceMatrix.h b/moeo/src/utils/moeoDominanceMatrix.h
index 474e492..287d69f 100644
--- a/moeo/src/utils/moeoDominanceMatrix.h
+++ b/moeo/src/utils/moeoDominanceMatrix.h
@@ -94,6 +94,7 @@ public:
         unsigned int i= _pop1.size();
         unsigned int j= _pop2.size();
         resize(i+j);
+        copySet.clear();
         countVector.resize(i+j);
         rankVector.resize(i+j);
         for (unsigned int k=0; k < i+j; k++) {
-- 
2.43.0


From c53faff932e526ddf8f52055d83fc9a3e7c76957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:33 +0000
Subject: [PATCH 086/160] fix: fill the dominance matrix of an empty population
 at once

the loop bound of the dominance matrix wrapped around for an empty population.
---
 moeo/src/utils/moeoDominanceMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/utils/moeoDominanceMatrix.h b/moeo/src/utils/moeoDominanceMatrix.h
index 287d69f..af901cf 100644
--- a/moeo/src/utils/moeoDominanceMatrix.h
+++ b/moeo/src/utils/moeoDominanceMatrix.h
@@ -105,7 +105,7 @@ public:
                 (*this)[k][l]=false;
         }
         //filling up of matrix, count and rank vectors
-        for (unsigned int k=0; k<i+j-1; k++) {
+        for (unsigned int k=0; k+1<i+j; k++) {
             for (unsigned int l=k+1; l<i+j; l++) {
                 if ( (k < i) && (l < i) ) {
                     if ( comparator(_pop1[l].objectiveVector(), _pop1[k].objectiveVector())) {
-- 
2.43.0


From b6f73eb0ec294c8f36bb4b0de6823d107cfee147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:33 +0000
Subject: [PATCH 087/160] fix: define the nearest neighbor diversity of a lone
 individual

the nearest neighbour diversity of a lone individual dereferenced the end of an empty list.
---
 moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h b/moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h
index 434bb0b..ba6c40c 100644
--- a/moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h
+++ b/moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h
@@ -40,6 +40,7 @@
 #ifndef MOEONEARESTNEIGHBORDIVERSITYASSIGNMENT_H_
 #define MOEONEARESTNEIGHBORDIVERSITYASSIGNMENT_H_
 
+#include <limits>
 #include <list>
 #include <diversity/moeoDiversityAssignment.h>
 #include <archive/moeoUnboundedArchive.h>
@@ -169,6 +170,9 @@ private:
      */
     double getElement(std::list<double> _myList)
     {
+        // no neighbor at all
+        if (_myList.empty())
+            return std::numeric_limits<double>::max();
         std::list<double>::iterator it= _myList.begin();
         for (unsigned int i=1; i< std::min((unsigned int)_myList.size(),index); i++)
             it++;
-- 
2.43.0


From c9c49b3885bc593eb760c3c8e25b06750ec9b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:33 +0000
Subject: [PATCH 088/160] fix: define the crowding of individuals that share an
 objective value

crowding diversity became NaN when all individuals had the same value for an objective.
---
 moeo/src/diversity/moeoCrowdingDiversityAssignment.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/moeo/src/diversity/moeoCrowdingDiversityAssignment.h b/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
index 8f9b554..572d9ba 100644
--- a/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
+++ b/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
@@ -131,6 +131,12 @@ class moeoCrowdingDiversityAssignment : public moeoDiversityAssignment < MOEOT >
           // min & max
           min = _pop[0].objectiveVector()[obj];
           max = _pop[_pop.size()-1].objectiveVector()[obj];
+          if (min == max)
+            {
+              // avoid extreme case
+              min -= tiny();
+              max += tiny();
+            }
           // set the diversity value to infiny for min and max
           _pop[0].diversity(inf());
           _pop[_pop.size()-1].diversity(inf());
-- 
2.43.0


From 128443b1d2cd066cfb6a3e628063688e563a82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:33 +0000
Subject: [PATCH 089/160] fix: accept an empty population in the sharing
 diversity

assigning sharing diversity to an empty population dereferenced its end.
---
 moeo/src/distance/moeoDistanceMatrix.h              | 1 -
 moeo/src/diversity/moeoSharingDiversityAssignment.h | 2 ++
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoDistanceMatrix.h b/moeo/src/distance/moeoDistanceMatrix.h
index 40514dc..b98e960 100644
--- a/moeo/src/distance/moeoDistanceMatrix.h
+++ b/moeo/src/distance/moeoDistanceMatrix.h
@@ -78,7 +78,6 @@ class moeoDistanceMatrix : public eoUF < const eoPop < MOEOT > &, void > , publi
       // 1 - setup the bounds (if necessary)
       distance.setup(_pop);
       // 2 - compute distances
-      this->operator[](0).operator[](0) = Type();
       for (unsigned int i=0; i<size(); i++)
         {
           this->operator[](i).operator[](i) = Type();
diff --git a/moeo/src/diversity/moeoSharingDiversityAssignment.h b/moeo/src/diversity/moeoSharingDiversityAssignment.h
index 4a0142e..146d13e 100644
--- a/moeo/src/diversity/moeoSharingDiversityAssignment.h
+++ b/moeo/src/diversity/moeoSharingDiversityAssignment.h
@@ -83,6 +83,8 @@ class moeoSharingDiversityAssignment : public moeoDiversityAssignment < MOEOT >
      */
     void operator()(eoPop < MOEOT > & _pop)
     {
+      if (_pop.empty())
+        return;
       // 1 - set simuilarities
       setSimilarities(_pop);
       // 2 - a higher diversity is better, so the values need to be inverted
-- 
2.43.0


From 530f9ba51b5cdd6ca6153e472cbdd69a7a98642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:33 +0000
Subject: [PATCH 090/160] fix: keep a reference to the normalizer given to the
 Euclidean distance

the Euclidean distance kept a reference to a copy of its normaliser that dies with the constructor.
---
 moeo/src/distance/moeoEuclideanDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoEuclideanDistance.h b/moeo/src/distance/moeoEuclideanDistance.h
index 5c43c75..4406e2f 100644
--- a/moeo/src/distance/moeoEuclideanDistance.h
+++ b/moeo/src/distance/moeoEuclideanDistance.h
@@ -61,7 +61,7 @@ class moeoEuclideanDistance : public moeoObjSpaceDistance < MOEOT >
       ctr with a normalizer
       @param _normalizer the normalizer used for every ObjectiveVector
       */
-    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> _normalizer):normalizer(_normalizer)
+    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> & _normalizer):normalizer(_normalizer)
 	  {}
     /**
       default ctr
-- 
2.43.0


From 258440250e7c7d46afa5fe71e23e58a8885f15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:33 +0000
Subject: [PATCH 091/160] fix: let the achievement fitness reward larger values
 of maximised objectives

the achievement fitness favoured the worst values of maximised objectives.
---
 .../src/scalarStuffs/fitness/moeoAchievementFitnessAssignment.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moeo/src/scalarStuffs/fitness/moeoAchievementFitnessAssignment.h b/moeo/src/scalarStuffs/fitness/moeoAchievementFitnessAssignment.h
index 2c8b873..50970fb 100644
--- a/moeo/src/scalarStuffs/fitness/moeoAchievementFitnessAssignment.h
+++ b/moeo/src/scalarStuffs/fitness/moeoAchievementFitnessAssignment.h
@@ -159,6 +159,8 @@ class moeoAchievementFitnessAssignment : public moeoScalarFitnessAssignment < MO
       for (unsigned int obj=0; obj<nobj; obj++)
         {
           temp = lambdas[obj] * (reference[obj] - _moeo.objectiveVector()[obj]);
+          if (ObjectiveVector::maximizing(obj))
+            temp = -temp;
           min = std::min(min, temp);
           sum += temp;
         }
-- 
2.43.0


From f5a9400328e51ac6e6ded633fa4480986b73339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:33 +0000
Subject: [PATCH 092/160] fix: apply the given normalizer in the achievement
 scalarizing fitness

the achievement scalarising fitness ignored the normaliser it was given.
---
 .../moeoAchievementScalarizingFunctionMetricFitnessAssignment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h b/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h
index 7546092..8b25226 100644
--- a/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h
+++ b/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h
@@ -65,7 +65,7 @@ class moeoAchievementScalarizingFunctionMetricFitnessAssignment : public moeoSin
 		 * @param _weight the weights applied to the objectives
 		 * @param _normalizer the normalizer to apply to objectiveVectors
 		 */
-		moeoAchievementScalarizingFunctionMetricFitnessAssignment(unsigned int _rho, const ObjectiveVector& _reference, const ObjectiveVector& _weight, moeoObjectiveVectorNormalizer<MOEOT>& _normalizer) : normalizer(_normalizer), eval(defaultEval), distance(_rho, _weight),	metric( distance, _reference, defaultNormalizer){}
+		moeoAchievementScalarizingFunctionMetricFitnessAssignment(unsigned int _rho, const ObjectiveVector& _reference, const ObjectiveVector& _weight, moeoObjectiveVectorNormalizer<MOEOT>& _normalizer) : normalizer(_normalizer), eval(defaultEval), distance(_rho, _weight),	metric( distance, _reference, _normalizer){}
 
 		/**
 		 * ctor with an evaluing fonction, applied if give moeot is invalid
-- 
2.43.0


From e0beb6c038a8d2045f4c6791b95fc6bc027aa21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:34 +0000
Subject: [PATCH 093/160] fix: measure the normalised hypervolume of sets that
 share an objective value

the normalised hypervolume of a single point, or of a set with one constant objective, divided by a zero range and never returned.
---
 moeo/src/metric/moeoHyperVolumeMetric.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/moeo/src/metric/moeoHyperVolumeMetric.h b/moeo/src/metric/moeoHyperVolumeMetric.h
index ce1ee0c..6a5fba1 100644
--- a/moeo/src/metric/moeoHyperVolumeMetric.h
+++ b/moeo/src/metric/moeoHyperVolumeMetric.h
@@ -162,7 +162,11 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
 	                min = std::min(min, _set[j][i]);
 	                max = std::max(max, _set[j][i]);
 	            }
-	            bounds[i] = eoRealInterval(min, max);
+	            // avoid extreme case
+	            if (normalize && min == max)
+	            	bounds[i] = eoRealInterval(min-tiny(), max+tiny());
+	            else
+	            	bounds[i] = eoRealInterval(min, max);
 	        }
     	}
     }
@@ -342,6 +346,15 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
 
   private:
 
+    /**
+     * Returns a very small value that can be used to avoid extreme cases (where the min bound == the max bound)
+     */
+    static double tiny()
+    {
+        return 1e-6;
+    }
+
+
 	    /*boolean indicates if data must be normalized or not*/
 	    bool normalize;
 
-- 
2.43.0


From ca5bc96a1cc9403ec7bd5094a5e39c069584b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:34 +0000
Subject: [PATCH 094/160] fix: define the normalised epsilon indicator of sets
 that share an objective value

the normalised epsilon indicator was NaN when an objective had the same value everywhere.
---
 moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
index 570d3e5..de35659 100644
--- a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
+++ b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
@@ -123,7 +123,11 @@ public:
                 min = std::min(min, _set2[j][i]);
                 max = std::max(max, _set2[j][i]);
             }
-            bounds[i] = eoRealInterval(min, max);
+            // avoid extreme case
+            if (min == max)
+            	bounds[i] = eoRealInterval(min-tiny(), max+tiny());
+            else
+            	bounds[i] = eoRealInterval(min, max);
         }
     }
 
@@ -139,6 +143,15 @@ protected:
 
 private :
 
+	/**
+	 * Returns a very small value that can be used to avoid extreme cases (where the min bound == the max bound)
+	 */
+	static double tiny()
+	{
+		return 1e-6;
+	}
+
+
     /**
      * abstract method allow to use differents epsilon indicators
      * @param _o1 the first objective vector
-- 
2.43.0


From 1c5c4db021e269643b86888d37317d43a1aea5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:34 +0000
Subject: [PATCH 095/160] fix: count shared solutions once in the contribution
 metric

solutions in both sets were counted as incomparable as well in the contribution metric.
---
 moeo/src/metric/moeoContributionMetric.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/metric/moeoContributionMetric.h b/moeo/src/metric/moeoContributionMetric.h
index f8df458..3952adc 100644
--- a/moeo/src/metric/moeoContributionMetric.h
+++ b/moeo/src/metric/moeoContributionMetric.h
@@ -111,7 +111,7 @@ class moeoContributionMetric : public moeoVectorVsVectorBinaryMetric < Objective
 
 
     /**
-     * Returns the number of solutions in '_set1' having no relation of dominance with those from '_set2'
+     * Returns the number of solutions in '_set1' not in '_set2' and having no relation of dominance with those from it
      * @param _set1 the first Pareto set
      * @param _set2 the second Pareto set
      */
@@ -122,7 +122,7 @@ class moeoContributionMetric : public moeoVectorVsVectorBinaryMetric < Objective
         {
           bool domin_rel = false;
           for (unsigned int j=0; j<_set2.size(); j++)
-            if ( (paretoComparator(_set2[j], _set1[i])) || (paretoComparator(_set1[i], _set2[j])) )
+            if ( (_set1[i] == _set2[j]) || (paretoComparator(_set2[j], _set1[i])) || (paretoComparator(_set1[i], _set2[j])) )
               {
                 domin_rel = true;
                 break;
-- 
2.43.0


From de814b56b5cceed5a7f8cdf45a19fe33304db66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:34 +0000
Subject: [PATCH 096/160] fix: take the base 2 logarithm in the entropy metric

the entropy metric divided inside the logarithm.
---
 moeo/src/metric/moeoEntropyMetric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/metric/moeoEntropyMetric.h b/moeo/src/metric/moeoEntropyMetric.h
index 012e99d..74e8aa5 100644
--- a/moeo/src/metric/moeoEntropyMetric.h
+++ b/moeo/src/metric/moeoEntropyMetric.h
@@ -87,7 +87,7 @@ class moeoEntropyMetric : public moeoVectorVsVectorBinaryMetric < ObjectiveVecto
           if (n_i > 0)
             {
               omega += 1.0 / N_i;
-              entropy += (float) n_i / (N_i * C) * log (((float) n_i / C) / log (2.0));
+              entropy += (float) n_i / (N_i * C) * log ((float) n_i / C) / log (2.0);
             }
         }
       entropy /= - log (omega);
-- 
2.43.0


From 67fe02f8f445c83725412ef621bedd1e0514e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:34 +0000
Subject: [PATCH 097/160] fix: reject objective indices out of range in the
 best objective vector statistic

asking for the best individual of an objective that does not exist read past the end.
---
 moeo/src/utils/moeoBestObjVecStat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/utils/moeoBestObjVecStat.h b/moeo/src/utils/moeoBestObjVecStat.h
index 604ca90..3bf69a6 100644
--- a/moeo/src/utils/moeoBestObjVecStat.h
+++ b/moeo/src/utils/moeoBestObjVecStat.h
@@ -65,7 +65,7 @@ public:
 	*/
 	const MOEOT & bestindividuals(unsigned int which) {
 		typedef typename moeoObjVecStat<MOEOT>::Traits traits;
-		if(which > traits::nObjectives() ) throw eoException("which is larger than the number of objectives");
+		if(which >= best_individuals.size() ) throw eoException("which is larger than the number of objectives");
 		return *(best_individuals[which]);
 	}
 
-- 
2.43.0


From 05b70a58dd4819d70ea4bccda57487e358f83198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:34 +0000
Subject: [PATCH 098/160] fix: forget the best individuals of the previous
 generation

the best objective vector statistic kept iterators into the first population it saw.
---
 moeo/src/utils/moeoBestObjVecStat.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moeo/src/utils/moeoBestObjVecStat.h b/moeo/src/utils/moeoBestObjVecStat.h
index 3bf69a6..f8a3a52 100644
--- a/moeo/src/utils/moeoBestObjVecStat.h
+++ b/moeo/src/utils/moeoBestObjVecStat.h
@@ -97,6 +97,7 @@ private :
       typedef typename moeoObjVecStat<MOEOT>::Traits traits;
 
       value().resize(traits::nObjectives());
+      best_individuals.clear();
 
       for (unsigned o = 0; o < traits::nObjectives(); ++o)
       {
-- 
2.43.0


From a0c8a6e988a57f2bbddb12f2d8557076d9c4c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:34 +0000
Subject: [PATCH 099/160] fix: save fronts to files with names of any length

saving a front to a file whose name is longer than 1000 characters overflowed a buffer.
---
 .../moeoArchiveObjectiveVectorSavingUpdater.h | 34 +++++--------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/moeo/src/utils/moeoArchiveObjectiveVectorSavingUpdater.h b/moeo/src/utils/moeoArchiveObjectiveVectorSavingUpdater.h
index 819533f..9f1df91 100644
--- a/moeo/src/utils/moeoArchiveObjectiveVectorSavingUpdater.h
+++ b/moeo/src/utils/moeoArchiveObjectiveVectorSavingUpdater.h
@@ -39,13 +39,12 @@
 #define MOEOARCHIVEOBJECTIVEVECTORSAVINGUPDATER_H_
 
 #include <fstream>
+#include <sstream>
 #include <string>
 #include <eoPop.h>
 #include <utils/eoUpdater.h>
 #include <archive/moeoArchive.h>
 
-#define MAX_BUFFER_SIZE 1000
-
 /**
  * This class allows to save the objective vectors of the solutions contained in an archive into a file at each generation.
  */
@@ -71,31 +70,14 @@ class moeoArchiveObjectiveVectorSavingUpdater : public eoUpdater
      */
     void operator()()
     {
-      char buff[MAX_BUFFER_SIZE];
+      std::ostringstream name;
+      name << filename;
+      if (id != -1)
+        name << "." << id;
       if (count)
-        {
-          if (id == -1)
-            {
-              sprintf (buff, "%s.%u", filename.c_str(), counter ++);
-            }
-          else
-            {
-              sprintf (buff, "%s.%u.%u", filename.c_str(), id, counter ++);
-            }
-        }
-      else
-        {
-          if (id == -1)
-            {
-              sprintf (buff, "%s", filename.c_str());
-            }
-          else
-            {
-              sprintf (buff, "%s.%u", filename.c_str(), id);
-            }
-          counter ++;
-        }
-      std::ofstream f(buff);
+        name << "." << counter;
+      counter ++;
+      std::ofstream f(name.str().c_str());
       for (unsigned int i = 0; i < arch.size (); i++)
         f << arch[i].objectiveVector() << std::endl;
       f.close ();
-- 
2.43.0


From 6c65120e32d1dabd18c8ab503e98a5557bcfb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:27 +0000
Subject: [PATCH 100/160] fix: Give the multi-objective roulette the total
 fitness of the population

moeoRouletteSelect drew in [0, tournament size) instead of [0, total fitness): biased selection, reads past the end of the population when the total is smaller.
---
 moeo/src/selection/moeoRouletteSelect.h | 5 ++++-
 moeo/src/selection/moeoSelectors.h      | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/moeo/src/selection/moeoRouletteSelect.h b/moeo/src/selection/moeoRouletteSelect.h
index 3a293b1..0ada63d 100644
--- a/moeo/src/selection/moeoRouletteSelect.h
+++ b/moeo/src/selection/moeoRouletteSelect.h
@@ -72,8 +72,11 @@ class moeoRouletteSelect:public moeoSelectOne < MOEOT >
      */
     const MOEOT & operator  () (const eoPop < MOEOT > & _pop)
     {
+      double total = 0.0;
+      for (unsigned int i=0; i<_pop.size(); i++)
+        total += _pop[i].fitness();
       // use the selector
-      return mo_roulette_wheel(_pop,tSize);
+      return mo_roulette_wheel(_pop,total);
     }
 
 
diff --git a/moeo/src/selection/moeoSelectors.h b/moeo/src/selection/moeoSelectors.h
index 1b61eaf..adfac71 100644
--- a/moeo/src/selection/moeoSelectors.h
+++ b/moeo/src/selection/moeoSelectors.h
@@ -123,7 +123,7 @@ It mo_roulette_wheel(It _begin, It _end, double total, eoRng& _gen = rng)
 
   It i = _begin;
 
-  while (roulette > 0.0)
+  while (roulette > 0.0 && i != _end)
     {
       roulette -= static_cast<double>(*(i++));
     }
@@ -142,7 +142,7 @@ const MOEOT& mo_roulette_wheel(const eoPop<MOEOT>& _pop, double total, eoRng& _g
 
   typename eoPop<MOEOT>::const_iterator i = _pop.begin();
 
-  while (roulette > 0.0)
+  while (roulette > 0.0 && i != _pop.end())
     {
       roulette -= static_cast<double>((i++)->fitness());
     }
@@ -161,7 +161,7 @@ MOEOT& mo_roulette_wheel(eoPop<MOEOT>& _pop, double total, eoRng& _gen = rng)
 
   typename eoPop<MOEOT>::iterator i = _pop.begin();
 
-  while (roulette > 0.0)
+  while (roulette > 0.0 && i != _pop.end())
     {
       // fitness only
       roulette -= static_cast<double>((i++)->fitness());
-- 
2.43.0


From 488d4248460dd706fab2c73620a13678f0acfe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:42 +0000
Subject: [PATCH 101/160] fix: Breed with the transformation given to moeoSEEA

moeoSEEA always bred with its general breeder: built with a transformation it only cloned.
---
 moeo/src/algo/moeoSEEA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/algo/moeoSEEA.h b/moeo/src/algo/moeoSEEA.h
index 055fc80..c8da679 100644
--- a/moeo/src/algo/moeoSEEA.h
+++ b/moeo/src/algo/moeoSEEA.h
@@ -137,7 +137,7 @@ public:
         while (continuator (_pop))
         {
             // generate offspring, worths are recalculated if necessary
-            genBreed (_pop, offspring);
+            breed (_pop, offspring);
 
             popEval (_pop, offspring); // eval of offspring
             // after replace, the new pop is in _pop
-- 
2.43.0


From 42ca0cc13c0bd4cb6919c14bdc40736c2483d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 102/160] fix: centre the sample before estimating its
 covariance matrix

edoEstimatorNormalMulti returned the second moments of the sample, not its covariance matrix.
---
 edo/src/edoEstimatorNormalMulti.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/edo/src/edoEstimatorNormalMulti.h b/edo/src/edoEstimatorNormalMulti.h
index 1298d8a..b3e8b45 100644
--- a/edo/src/edoEstimatorNormalMulti.h
+++ b/edo/src/edoEstimatorNormalMulti.h
@@ -199,16 +199,6 @@ public:
                     }
             }
 
-            // variance-covariance matrix are symmetric, thus a triangular storage is sufficient
-            // variance-covariance matrix computation : transpose(A) * A
-            Matrix var = sample.transpose() * sample;
-
-            // Be sure that the symmetric matrix got the good size
-            assert(var.innerSize() == s_size);
-            assert(var.outerSize() == s_size);
-
-            _varcovar = var / p_size;
-
             // unit vector
             Vector u( p_size);
             u = Vector::Constant(p_size, 1);
@@ -218,6 +208,19 @@ public:
 
             // division by n
             _mean /= p_size;
+
+            // deviations from the mean
+            sample.rowwise() -= _mean.transpose();
+
+            // variance-covariance matrix are symmetric, thus a triangular storage is sufficient
+            // variance-covariance matrix computation : transpose(A) * A
+            Matrix var = sample.transpose() * sample;
+
+            // Be sure that the symmetric matrix got the good size
+            assert(var.innerSize() == s_size);
+            assert(var.outerSize() == s_size);
+
+            _varcovar = var / p_size;
         }
 
         const Matrix& get_varcovar() const {return _varcovar;}
-- 
2.43.0


From 7ac3c227e91800e8f7a4d0690eebb48ee80c6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 103/160] fix: undo the pivoting of the factorisation when
 sampling a multi-normal

edoSamplerNormalMulti mixed up the coordinates whenever the factorisation of the covariance matrix pivoted.
---
 edo/src/edoSamplerNormalMulti.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edo/src/edoSamplerNormalMulti.h b/edo/src/edoSamplerNormalMulti.h
index d6e3b9b..0915b59 100644
--- a/edo/src/edoSamplerNormalMulti.h
+++ b/edo/src/edoSamplerNormalMulti.h
@@ -125,7 +125,7 @@ public:
 
         // LsD = cholesky decomposition of varcovar
 
-        // Computes L and mD such as V = L mD L^T
+        // Computes P, L and mD such as V = P^T L mD L^T P
         Eigen::LDLT<Matrix> cholesky( distrib.varcovar() );
         Matrix L = cholesky.matrixL();
         assert(L.innerSize() == size);
@@ -155,8 +155,8 @@ public:
         assert(T.innerSize() == size);
         assert(T.outerSize() == 1);
 
-        // LDT = (L mD^1/2) * T
-        Vector LDT = LsD * T;
+        // LDT = P^T * (L mD^1/2) * T
+        Vector LDT = cholesky.transpositionsP().transpose() * ( LsD * T );
         assert(LDT.innerSize() == size);
         assert(LDT.outerSize() == 1);
 
-- 
2.43.0


From b696ffdb76a0675b17d488cb7ced0e0bcc8ff9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 104/160] fix: do not sample NaN from a singular covariance
 matrix

edoSamplerNormalMulti drew NaN when rounding left a negative pivot in the factorisation of a singular covariance matrix.
---
 edo/src/edoSamplerNormalMulti.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edo/src/edoSamplerNormalMulti.h b/edo/src/edoSamplerNormalMulti.h
index 0915b59..8429d3f 100644
--- a/edo/src/edoSamplerNormalMulti.h
+++ b/edo/src/edoSamplerNormalMulti.h
@@ -139,7 +139,8 @@ public:
         // remember that V = ( L mD^1/2) ( L mD^1/2)^T
         // fortunately, the square root of a diagonal matrix is the square 
         // root of all its elements
-        Matrix sqrtD = mD.cwiseSqrt();
+        // rounding errors may leave tiny negative elements on a singular matrix
+        Matrix sqrtD = mD.cwiseMax(0).cwiseSqrt();
         assert(sqrtD.innerSize() == size);
         assert(sqrtD.outerSize() == size);
 
-- 
2.43.0


From 8e1e929f703038fafcef6558dbadc778406b8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 105/160] fix: let the centring of a mono-normal distribution
 take effect

edoNormalMonoCenter assigned the new mean to a temporary and left the distribution unchanged.
---
 edo/src/edoNormalMono.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edo/src/edoNormalMono.h b/edo/src/edoNormalMono.h
index 1260446..0d728bc 100644
--- a/edo/src/edoNormalMono.h
+++ b/edo/src/edoNormalMono.h
@@ -64,8 +64,10 @@ public:
         return _mean.size();
     }
 
-    EOT mean(){return _mean;}
-    EOT variance(){return _variance;}
+    EOT& mean(){return _mean;}
+    const EOT& mean() const {return _mean;}
+    EOT& variance(){return _variance;}
+    const EOT& variance() const {return _variance;}
 
 private:
     EOT _mean;
-- 
2.43.0


From f50af95ad77300fcc4eff85132e0a8294ad4eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 106/160] fix: let the centring of a uniform distribution take
 effect

edoUniformCenter wrote through dangling references to temporaries (heap-use-after-free) and left the distribution unchanged.
---
 edo/src/edoVectorBounds.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edo/src/edoVectorBounds.h b/edo/src/edoVectorBounds.h
index 7d01bad..7594b82 100644
--- a/edo/src/edoVectorBounds.h
+++ b/edo/src/edoVectorBounds.h
@@ -41,8 +41,10 @@ public:
         assert(_min.size() == _max.size());
     }
 
-    EOT min(){return _min;}
-    EOT max(){return _max;}
+    EOT& min(){return _min;}
+    const EOT& min() const {return _min;}
+    EOT& max(){return _max;}
+    const EOT& max() const {return _max;}
 
     unsigned int size()
     {
-- 
2.43.0


From eac6dcf2716bcb09c00923f5cf62e1918bf23158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 107/160] fix: let the centring of a multi-normal distribution
 compile and take effect

edoNormalMultiCenter did not compile for a vector of reals, and assigned the new mean to a temporary.
---
 edo/src/edoNormalMulti.h       | 3 ++-
 edo/src/edoNormalMultiCenter.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/edo/src/edoNormalMulti.h b/edo/src/edoNormalMulti.h
index a64a912..5e66e5a 100644
--- a/edo/src/edoNormalMulti.h
+++ b/edo/src/edoNormalMulti.h
@@ -148,7 +148,8 @@ public:
         return _mean.innerSize();
     }
 
-    Vector mean() const {return _mean;}
+    Vector& mean() {return _mean;}
+    const Vector& mean() const {return _mean;}
     Matrix varcovar() const {return _varcovar;}
 
 private:
diff --git a/edo/src/edoNormalMultiCenter.h b/edo/src/edoNormalMultiCenter.h
index 30510c6..9f96585 100644
--- a/edo/src/edoNormalMultiCenter.h
+++ b/edo/src/edoNormalMultiCenter.h
@@ -69,7 +69,7 @@ public:
 
     void operator() ( edoNormalMulti< EOT >& distrib, EOT& mass )
     {
-        assert( distrib.size() == mass.innerSize() );
+        assert( distrib.size() == mass.size() );
         Vector mean( distrib.size() );
         for( unsigned int i=0; i < distrib.size(); i++ ) {
             mean(i) = mass[i];
-- 
2.43.0


From e659aa520ddd7d73d21e1f7c56043269a3efb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 108/160] fix: initialise the dimension of an adaptive normal
 built from its parameters

edoNormalAdaptive left its dimension uninitialised when built from given parameters.
---
 edo/src/edoNormalAdaptive.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edo/src/edoNormalAdaptive.h b/edo/src/edoNormalAdaptive.h
index 7b60d2b..9e2963c 100644
--- a/edo/src/edoNormalAdaptive.h
+++ b/edo/src/edoNormalAdaptive.h
@@ -99,6 +99,7 @@ public:
             Vector p_c,
             Vector p_s
         ) :
+        _dim( dim ),
         _mean( mean ),
         _C( C ),
         _B( B ),
-- 
2.43.0


From 17a54028f29bbdb365aad74e1228d4730e32f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 109/160] fix: reset the distribution of a stateless combined
 estimator in place

edoEstimatorCombinedStateless assigned to the distribution it had just deleted, and deleted it again at its end.
---
 edo/src/edoEstimatorCombined.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edo/src/edoEstimatorCombined.h b/edo/src/edoEstimatorCombined.h
index 3c546bd..bfbf214 100644
--- a/edo/src/edoEstimatorCombined.h
+++ b/edo/src/edoEstimatorCombined.h
@@ -88,8 +88,7 @@ public:
 
     virtual D operator()( eoPop<EOType>& pop )
     {
-        delete &(this->_distrib);
-        this->_distrib = *(new D);
+        this->_distrib = D();
         return edoEstimatorCombinedAdaptive<D>::operator()(pop);
     }
 
-- 
2.43.0


From dff920148c48856cb57a95f0e6fbbaabcc22bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 110/160] fix: correct the assertion on the bit table of an
 individual

edoEstimatorBinomialMulti aborted as soon as an individual had more ones than the population has individuals.
---
 edo/src/edoEstimatorBinomialMulti.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoEstimatorBinomialMulti.h b/edo/src/edoEstimatorBinomialMulti.h
index 7fd1a45..11a325c 100644
--- a/edo/src/edoEstimatorBinomialMulti.h
+++ b/edo/src/edoEstimatorBinomialMulti.h
@@ -97,7 +97,7 @@ public:
             assert( indiv.rows() == rows && indiv.cols() == cols );
 
             // the EOT matrix should be filled with 1 or 0 only
-            assert( indiv.sum() <= popsize );
+            assert( indiv.sum() <= rows * cols );
 
             probas += indiv / popsize;
 
-- 
2.43.0


From 1729de3036534a0e4073053d80e67c710ec0536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 111/160] fix: let a multi-binomial be built from its
 dimensions

edoBinomialMulti(rows, cols, proba) did not compile.
---
 edo/src/edoBinomialMulti.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoBinomialMulti.h b/edo/src/edoBinomialMulti.h
index a2e7bfb..69236a3 100644
--- a/edo/src/edoBinomialMulti.h
+++ b/edo/src/edoBinomialMulti.h
@@ -54,7 +54,7 @@ public:
      * 0.5 by default
      */
     edoBinomialMulti( unsigned int rows, unsigned int cols, double proba=0.5 )
-        : T::Constant(rows,cols,proba) {}
+        : T( T::Constant(rows,cols,proba) ) {}
 
     /** Constructor without any assumption.
      */
-- 
2.43.0


From a4dac4ac60f74f8eb6ad543d6ef11977610aced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:52 +0000
Subject: [PATCH 112/160] fix: accept a draw rounded to the upper bound

edoSamplerUniform aborted when the bounds were so close that a draw was rounded to the upper one.
---
 edo/src/edoSamplerUniform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoSamplerUniform.h b/edo/src/edoSamplerUniform.h
index 334daf3..1a1915a 100644
--- a/edo/src/edoSamplerUniform.h
+++ b/edo/src/edoSamplerUniform.h
@@ -70,7 +70,7 @@ public:
             double max = distrib.max()[i];
             double random = rng.uniform(min, max);
 
-            assert( ( min == random && random == max ) || ( min <= random && random < max) ); // random in [ min, max [
+            assert( ( min == random && random == max ) || ( min <= random && random <= max) ); // random in [ min, max [
 
             solution.push_back(random);
         }
-- 
2.43.0


From 1491d0bde9eb844caf0dc2f08c97558b65e5b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:59 +0000
Subject: [PATCH 113/160] fix: compute the expected norm of a normal vector
 without integer division

edoEstimatorNormalAdaptive overestimated the expected norm of a normal vector, an integer division dropping its second term.
---
 edo/src/edoEstimatorNormalAdaptive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoEstimatorNormalAdaptive.h b/edo/src/edoEstimatorNormalAdaptive.h
index a19e14b..fa46284 100644
--- a/edo/src/edoEstimatorNormalAdaptive.h
+++ b/edo/src/edoEstimatorNormalAdaptive.h
@@ -147,7 +147,7 @@ public:
         assert( invsqrtC.outerSize() == d.coord_sys().outerSize() );
 
         // expectation of ||N(0,I)|| == norm(randn(N,1))
-        double chiN = sqrt(N)*(1-1/(4*N)+1/(21*pow(N,2)));
+        double chiN = sqrt(N)*(1-1/(4.0*N)+1/(21*pow(N,2)));
 
 
         /**********************************************************************
-- 
2.43.0


From 1b2b539981bcb459459ec1aaa6f253ddc47ecad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:06 +0000
Subject: [PATCH 114/160] fix: invalidate a solution moved back within its
 bounds

edoBounderBound, edoBounderRng and edoBounderUniform changed an evaluated solution and left its old fitness valid.
---
 edo/src/edoBounderBound.h   | 2 ++
 edo/src/edoBounderRng.h     | 1 +
 edo/src/edoBounderUniform.h | 1 +
 3 files changed, 4 insertions(+)

diff --git a/edo/src/edoBounderBound.h b/edo/src/edoBounderBound.h
index 36ad531..1a31209 100644
--- a/edo/src/edoBounderBound.h
+++ b/edo/src/edoBounderBound.h
@@ -52,12 +52,14 @@ public:
         if (x[d] < this->min()[d])
             {
             x[d] = this->min()[d];
+            x.invalidate();
             continue;
             }
 
         if (x[d] > this->max()[d])
             {
             x[d] = this->max()[d];
+            x.invalidate();
             }
         }
     }
diff --git a/edo/src/edoBounderRng.h b/edo/src/edoBounderRng.h
index bfe6cb7..9396977 100644
--- a/edo/src/edoBounderRng.h
+++ b/edo/src/edoBounderRng.h
@@ -56,6 +56,7 @@ public:
         if (x[d] < this->min()[d] || x[d] > this->max()[d])
             {
             x[d] = _rng();
+            x.invalidate();
             }
         }
     }
diff --git a/edo/src/edoBounderUniform.h b/edo/src/edoBounderUniform.h
index f5ea97c..3d70ba0 100644
--- a/edo/src/edoBounderUniform.h
+++ b/edo/src/edoBounderUniform.h
@@ -60,6 +60,7 @@ public:
             if ( sol[d] < this->min()[d] || sol[d] > this->max()[d]) {
                 // use EO's global "rng"
                 sol[d] = rng.uniform( this->min()[d], this->max()[d] );
+                sol.invalidate();
             }
         } // for d in size
         
-- 
2.43.0


From f10551635a025ff7e7be1c2e2dd00beb4190406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:26 +0000
Subject: [PATCH 115/160] fix: let the star topology implement the global best
 of its interface

eoStarTopology could not be instantiated, its global best having another signature than the interface.
---
 eo/src/eoStarTopology.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoStarTopology.h b/eo/src/eoStarTopology.h
index 6083dbb..73b9699 100644
--- a/eo/src/eoStarTopology.h
+++ b/eo/src/eoStarTopology.h
@@ -114,7 +114,7 @@ public:
          * Return the global best of the topology
          */
 
-    virtual POT & globalBest(const eoPop<POT>&)
+    virtual POT & globalBest()
     {
         return neighborhood.best();
     }
-- 
2.43.0


From 3fed0f11bc45cec11117db3b091914c304ea44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:42 +0000
Subject: [PATCH 116/160] fix: keep the coefficients of particle velocities by
 value

the velocity components kept references to the coefficients they were given, so that a constant left them dangling (stack-use-after-return).
---
 eo/src/eoConstrictedVariableWeightVelocity.h | 4 ++--
 eo/src/eoConstrictedVelocity.h               | 4 ++--
 eo/src/eoExtendedVelocity.h                  | 8 ++++----
 eo/src/eoFixedInertiaWeightedVelocity.h      | 4 ++--
 eo/src/eoIntegerVelocity.h                   | 6 +++---
 eo/src/eoStandardVelocity.h                  | 6 +++---
 eo/src/eoVariableInertiaWeightedVelocity.h   | 2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index cff14bc..1502e8c 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -190,10 +190,10 @@ public:
 protected:
     eoTopology < POT > & topology;
 
-    const VelocityType & coeff;   // the fixed constriction coefficient
+    const VelocityType coeff;   // the fixed constriction coefficient
     eoWeightUpdater<VelocityType> & weightUpdater;      // the updater used to make the weight evoluate
 
-    const VelocityType & c1;    // learning factor 1
+    const VelocityType c1;    // learning factor 1
     const VelocityType  & c2;    // learning factor 2
 
     eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
diff --git a/eo/src/eoConstrictedVelocity.h b/eo/src/eoConstrictedVelocity.h
index 2e13bc1..a737e33 100644
--- a/eo/src/eoConstrictedVelocity.h
+++ b/eo/src/eoConstrictedVelocity.h
@@ -183,9 +183,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & c1;    // learning factor 1
+    const VelocityType c1;    // learning factor 1
     const VelocityType  & c2;    // learning factor 2
-    const VelocityType & coeff;   // the fixed constriction coefficient
+    const VelocityType coeff;   // the fixed constriction coefficient
     eoRng & gen;        // the random generator
 
     eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
diff --git a/eo/src/eoExtendedVelocity.h b/eo/src/eoExtendedVelocity.h
index bcbd51c..36024e5 100644
--- a/eo/src/eoExtendedVelocity.h
+++ b/eo/src/eoExtendedVelocity.h
@@ -193,10 +193,10 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & omega;  // social/cognitive coefficient
-    const VelocityType & c1;
-    const VelocityType & c2;  // social/cognitive coefficient
-    const VelocityType & c3;  // social/cognitive coefficient
+    const VelocityType omega;  // social/cognitive coefficient
+    const VelocityType c1;
+    const VelocityType c2;  // social/cognitive coefficient
+    const VelocityType c3;  // social/cognitive coefficient
 
     eoRealVectorBounds bounds; // REAL bounds even if the velocity could be of another type.
         eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index 996845c..4576ecb 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -175,9 +175,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & c1;    // learning factor 1
+    const VelocityType c1;    // learning factor 1
     const VelocityType  & c2;    // learning factor 2
-    const VelocityType & weight;   // the fixed weight
+    const VelocityType weight;   // the fixed weight
     eoRng & gen;        // the random generator
 
     eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
diff --git a/eo/src/eoIntegerVelocity.h b/eo/src/eoIntegerVelocity.h
index 2ff8108..d65dcc4 100644
--- a/eo/src/eoIntegerVelocity.h
+++ b/eo/src/eoIntegerVelocity.h
@@ -178,9 +178,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & c1;  // social/cognitive coefficient
-    const VelocityType & c2;  // social/cognitive coefficient
-    const VelocityType & c3;  // social/cognitive coefficient
+    const VelocityType c1;  // social/cognitive coefficient
+    const VelocityType c2;  // social/cognitive coefficient
+    const VelocityType c3;  // social/cognitive coefficient
 
     eoRealVectorBounds bounds; // REAL bounds even if the velocity could be of another type.
         eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoStandardVelocity.h b/eo/src/eoStandardVelocity.h
index 3f67eec..b1c22b8 100644
--- a/eo/src/eoStandardVelocity.h
+++ b/eo/src/eoStandardVelocity.h
@@ -178,9 +178,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & omega;  // social/cognitive coefficient
-    const VelocityType & c1;  // social/cognitive coefficient
-    const VelocityType & c2;  // social/cognitive coefficient
+    const VelocityType omega;  // social/cognitive coefficient
+    const VelocityType c1;  // social/cognitive coefficient
+    const VelocityType c2;  // social/cognitive coefficient
 
     eoRealVectorBounds bounds; // REAL bounds even if the velocity could be of another type.
         eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index 33bbe4f..e217842 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -182,7 +182,7 @@ public:
 protected:
     eoTopology < POT > & topology;
     eoWeightUpdater<VelocityType> & weightUpdater;      // the updater used to make the weight evoluate
-    const VelocityType & c1;    // learning factor 1
+    const VelocityType c1;    // learning factor 1
     const VelocityType  & c2;    // learning factor 2
 
         eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
-- 
2.43.0


From c8f3bb5c37536c3e2990563e3eb8576acc16e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:42 +0000
Subject: [PATCH 117/160] fix: look into the package of a worker under its lock

under the progressive policy the master read the package of a worker while the worker was clearing it (data race).
---
 smp/src/scheduler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smp/src/scheduler.cpp b/smp/src/scheduler.cpp
index 9a5210e..c8bf193 100644
--- a/smp/src/scheduler.cpp
+++ b/smp/src/scheduler.cpp
@@ -102,10 +102,11 @@ void paradiseo::smp::Scheduler<EOT,Policy>::operator()(eoUF<EOT&, void>& func, e
     {
         for(unsigned i = 0; i < workers.size(); i++)
         {
-            if(popPackages[i].empty() && counter < pop.size())
+            // A worker that holds its lock is busy with its package
+            std::unique_lock<std::mutex> lock(m[i], std::try_to_lock);
+            if(lock.owns_lock() && popPackages[i].empty() && counter < pop.size())
             {
                 j = 0;
-                std::unique_lock<std::mutex> lock(m[i]);
                 while (j < planning[i] && counter < pop.size()) 
                 {
                     //std::cout << counter << std::endl;
-- 
2.43.0


From 5a4d6e778b7bfc6c29d174e33f836e58fe47588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:18 +0000
Subject: [PATCH 118/160] fix: keep the second learning factor of particle
 velocities by value

four velocity components kept a reference to their second learning factor (stack-use-after-return when given a constant).
---
 eo/src/eoConstrictedVariableWeightVelocity.h | 2 +-
 eo/src/eoConstrictedVelocity.h               | 2 +-
 eo/src/eoFixedInertiaWeightedVelocity.h      | 2 +-
 eo/src/eoVariableInertiaWeightedVelocity.h   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index 1502e8c..3eb1736 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -194,7 +194,7 @@ protected:
     eoWeightUpdater<VelocityType> & weightUpdater;      // the updater used to make the weight evoluate
 
     const VelocityType c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
+    const VelocityType c2;    // learning factor 2
 
     eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
     eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoConstrictedVelocity.h b/eo/src/eoConstrictedVelocity.h
index a737e33..aa41987 100644
--- a/eo/src/eoConstrictedVelocity.h
+++ b/eo/src/eoConstrictedVelocity.h
@@ -184,7 +184,7 @@ public:
 protected:
     eoTopology < POT > & topology;
     const VelocityType c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
+    const VelocityType c2;    // learning factor 2
     const VelocityType coeff;   // the fixed constriction coefficient
     eoRng & gen;        // the random generator
 
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index 4576ecb..3e4aae4 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -176,7 +176,7 @@ public:
 protected:
     eoTopology < POT > & topology;
     const VelocityType c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
+    const VelocityType c2;    // learning factor 2
     const VelocityType weight;   // the fixed weight
     eoRng & gen;        // the random generator
 
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index e217842..0061d97 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -183,7 +183,7 @@ protected:
     eoTopology < POT > & topology;
     eoWeightUpdater<VelocityType> & weightUpdater;      // the updater used to make the weight evoluate
     const VelocityType c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
+    const VelocityType c2;    // learning factor 2
 
         eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
     eoRealBoundModifier & bndsModifier;
-- 
2.43.0


From e354d8701c8f4245d82ece0e0f4406460a026cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:51 +0000
Subject: [PATCH 119/160] fix: do not link the only node of a ring to itself

a ring of one node had that node as its own neighbour.
---
 smp/src/topology/ring.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smp/src/topology/ring.cpp b/smp/src/topology/ring.cpp
index 4de953b..57fcf93 100644
--- a/smp/src/topology/ring.cpp
+++ b/smp/src/topology/ring.cpp
@@ -43,5 +43,5 @@ void paradiseo::smp::Ring::operator()(unsigned nbNode, std::vector<std::vector<b
     matrix.assign(nbNode, line);
 	
     for(unsigned i=0; i < nbNode; i++)
-        matrix[i][(i+1)%nbNode]=true;
+        matrix[i][(i+1)%nbNode]=(nbNode > 1);
 }	
-- 
2.43.0


From f13e3296a2c58383ad0950bbcec0273099d6b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:51 +0000
Subject: [PATCH 120/160] fix: do not read before the factors of the number of
 nodes of a mesh

building a mesh with a prime number of nodes, one node or a ratio below the smallest possible read before the list of factors.
---
 smp/src/topology/mesh.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/smp/src/topology/mesh.cpp b/smp/src/topology/mesh.cpp
index e4b25ec..aa46dee 100644
--- a/smp/src/topology/mesh.cpp
+++ b/smp/src/topology/mesh.cpp
@@ -44,13 +44,15 @@ void paradiseo::smp::Mesh::operator()(unsigned nbNode, std::vector<std::vector<b
     // ListFact[i] contains first factor which produces a ratio above the variable _ratio,
     // or the last element if there is no ratio that can go over the variable _ratio. 
 	double r1 = (double)listFact[i] * listFact[i] / nbNode;
-	double r2 = (double)listFact[i-1] * listFact[i-1] / nbNode;
+    height = listFact[i];
 	
 	// Which ratio (r1,r2) matches _ratio best?
-    if (std::abs(r2 - _ratio) <= _ratio - r1)
-        height = listFact[i-1];
-    else
-        height = listFact[i];
+    if (i > 0)
+    {
+        double r2 = (double)listFact[i-1] * listFact[i-1] / nbNode;
+        if (std::abs(r2 - _ratio) <= _ratio - r1)
+            height = listFact[i-1];
+    }
     
     width = nbNode/height;
 	
-- 
2.43.0


From 243077dc87f01444ee27ead0b74b2ee7ae52fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:51 +0000
Subject: [PATCH 121/160] fix: choose the grid whose ratio is closest to the
 requested one

a mesh took the first ratio above the requested one even when the ratio below was closer.
---
 smp/src/topology/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smp/src/topology/mesh.cpp b/smp/src/topology/mesh.cpp
index aa46dee..404017a 100644
--- a/smp/src/topology/mesh.cpp
+++ b/smp/src/topology/mesh.cpp
@@ -50,7 +50,7 @@ void paradiseo::smp::Mesh::operator()(unsigned nbNode, std::vector<std::vector<b
     if (i > 0)
     {
         double r2 = (double)listFact[i-1] * listFact[i-1] / nbNode;
-        if (std::abs(r2 - _ratio) <= _ratio - r1)
+        if (std::abs(r2 - _ratio) <= std::abs(r1 - _ratio))
             height = listFact[i-1];
     }
     
-- 
2.43.0


From 4bab543556b3f37f7e0a28828111e459d6321f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:51 +0000
Subject: [PATCH 122/160] fix: throw when a custom topology has another number
 of nodes

custom topologies aborted, or did not notice, when constructed with another number of nodes, where an error to throw is documented.
---
 smp/src/topology/customBooleanTopology.cpp    | 3 ++-
 smp/src/topology/customStochasticTopology.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/smp/src/topology/customBooleanTopology.cpp b/smp/src/topology/customBooleanTopology.cpp
index 8bd87d1..3dd99af 100644
--- a/smp/src/topology/customBooleanTopology.cpp
+++ b/smp/src/topology/customBooleanTopology.cpp
@@ -106,7 +106,8 @@ std::vector<unsigned> paradiseo::smp::CustomBooleanTopology::getIdNeighbors(unsi
 
 void paradiseo::smp::CustomBooleanTopology::construct(unsigned nbNode)
 {
-    assert(nbNode == _matrix.size());
+    if(nbNode != _matrix.size())
+        throw eoException("The custom topology has " + std::to_string(_matrix.size()) + " nodes, not " + std::to_string(nbNode));
 }
 
 void paradiseo::smp::CustomBooleanTopology::isolateNode(unsigned idNode)
diff --git a/smp/src/topology/customStochasticTopology.cpp b/smp/src/topology/customStochasticTopology.cpp
index c0d9a3b..09208c1 100644
--- a/smp/src/topology/customStochasticTopology.cpp
+++ b/smp/src/topology/customStochasticTopology.cpp
@@ -114,7 +114,8 @@ std::vector<unsigned> paradiseo::smp::CustomStochasticTopology::getIdNeighbors(u
 
 void paradiseo::smp::CustomStochasticTopology::construct(unsigned nbNode)
 {
-    assert(nbNode == _matrix.size());
+    if(nbNode != _matrix.size())
+        throw eoException("The custom topology has " + std::to_string(_matrix.size()) + " nodes, not " + std::to_string(nbNode));
 }
 
 void paradiseo::smp::CustomStochasticTopology::isolateNode(unsigned idNode)
-- 
2.43.0


From 679240ba73d5b4687a43d71ce2f765a84740e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:51 +0000
Subject: [PATCH 123/160] fix: restore a custom topology when it is constructed
 again

nodes isolated during a run of an island model stayed isolated in the next run with a custom topology.
---
 smp/src/topology/customBooleanTopology.cpp    | 2 ++
 smp/src/topology/customBooleanTopology.h      | 1 +
 smp/src/topology/customStochasticTopology.cpp | 2 ++
 smp/src/topology/customStochasticTopology.h   | 1 +
 4 files changed, 6 insertions(+)

diff --git a/smp/src/topology/customBooleanTopology.cpp b/smp/src/topology/customBooleanTopology.cpp
index 3dd99af..1179936 100644
--- a/smp/src/topology/customBooleanTopology.cpp
+++ b/smp/src/topology/customBooleanTopology.cpp
@@ -86,6 +86,7 @@ paradiseo::smp::CustomBooleanTopology::CustomBooleanTopology(std::string filenam
             if(line.size() != _matrix.size())
                 throw eoException("Mistake in the topology, matrix is not squared" );
 
+        _initial = _matrix;
         f.close () ;
     }   
     else
@@ -108,6 +109,7 @@ void paradiseo::smp::CustomBooleanTopology::construct(unsigned nbNode)
 {
     if(nbNode != _matrix.size())
         throw eoException("The custom topology has " + std::to_string(_matrix.size()) + " nodes, not " + std::to_string(nbNode));
+    _matrix = _initial;
 }
 
 void paradiseo::smp::CustomBooleanTopology::isolateNode(unsigned idNode)
diff --git a/smp/src/topology/customBooleanTopology.h b/smp/src/topology/customBooleanTopology.h
index 6fc9b4a..772020a 100644
--- a/smp/src/topology/customBooleanTopology.h
+++ b/smp/src/topology/customBooleanTopology.h
@@ -68,6 +68,7 @@ public :
 	
 private :
 	std::vector<std::vector<bool>> _matrix;
+	std::vector<std::vector<bool>> _initial; // as read, before any isolation
 };
 
 }
diff --git a/smp/src/topology/customStochasticTopology.cpp b/smp/src/topology/customStochasticTopology.cpp
index 09208c1..4d46934 100644
--- a/smp/src/topology/customStochasticTopology.cpp
+++ b/smp/src/topology/customStochasticTopology.cpp
@@ -91,6 +91,7 @@ paradiseo::smp::CustomStochasticTopology::CustomStochasticTopology(std::string f
             if(line.size() != _matrix.size())
                 throw eoException("Mistake in the topology, matrix is not square" );
 
+        _initial = _matrix;
         f.close () ;
     }   
     else
@@ -116,6 +117,7 @@ void paradiseo::smp::CustomStochasticTopology::construct(unsigned nbNode)
 {
     if(nbNode != _matrix.size())
         throw eoException("The custom topology has " + std::to_string(_matrix.size()) + " nodes, not " + std::to_string(nbNode));
+    _matrix = _initial;
 }
 
 void paradiseo::smp::CustomStochasticTopology::isolateNode(unsigned idNode)
diff --git a/smp/src/topology/customStochasticTopology.h b/smp/src/topology/customStochasticTopology.h
index d220e97..4b229ec 100644
--- a/smp/src/topology/customStochasticTopology.h
+++ b/smp/src/topology/customStochasticTopology.h
@@ -69,6 +69,7 @@ public :
 	
 private :
 	std::vector<std::vector<double>> _matrix;
+	std::vector<std::vector<double>> _initial; // as read, before any isolation
 };
 
 }
-- 
2.43.0


From 80fe93b3901bdc8139bde21aa3ec752898af95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:55 +0000
Subject: [PATCH 124/160] fix: let the topology of an island model really be
 replaced

IslandModel::setTopology assigned the base part of the topology and kept the old one.
---
 smp/src/islandModel.cpp | 14 +++++++-------
 smp/src/islandModel.h   |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/smp/src/islandModel.cpp b/smp/src/islandModel.cpp
index e32fb8e..96836d4 100644
--- a/smp/src/islandModel.cpp
+++ b/smp/src/islandModel.cpp
@@ -32,7 +32,7 @@ Contact: paradiseo-help@lists.gforge.inria.fr
 
 template<class EOT>
 paradiseo::smp::IslandModel<EOT>::IslandModel(AbstractTopology& _topo) :
-    topo(_topo),
+    topo(&_topo),
     running(false)
 { }
 
@@ -81,7 +81,7 @@ void paradiseo::smp::IslandModel<EOT>::operator()()
             if(it.second && it.first->isStopped())
             {
                 it.second = false;
-                topo.isolateNode(table.getLeft()[it.first]);
+                topo->isolateNode(table.getLeft()[it.first]);
             }
         }        
         // Check sending
@@ -134,15 +134,15 @@ void paradiseo::smp::IslandModel<EOT>::setTopology(AbstractTopology& _topo)
 {
     // If we change topo, we need to protect it
     std::lock_guard<std::mutex> lock(m);
-    topo = _topo;
+    topo = &_topo;
     // If we change when the algorithm is running, we need to recontruct the topo
     if(running)
     {
-        topo.construct(islands.size());
+        topo->construct(islands.size());
         // If we change the topology during the algorithm, we need to isolate stopped islands
         for(auto it : islands)
             if(!it.second)
-                topo.isolateNode(table.getLeft()[it.first]);
+                topo->isolateNode(table.getLeft()[it.first]);
     }
 }
 
@@ -154,7 +154,7 @@ void paradiseo::smp::IslandModel<EOT>::send(void)
     {
         // Get the neighbors
         unsigned idFrom = table.getLeft()[listEmigrants.front().second];
-        std::vector<unsigned> neighbors = topo.getIdNeighbors(idFrom);
+        std::vector<unsigned> neighbors = topo->getIdNeighbors(idFrom);
         
         // Send elements to neighbors
         eoPop<EOT> migPop = std::move(listEmigrants.front().first);
@@ -185,7 +185,7 @@ void paradiseo::smp::IslandModel<EOT>::initModel(void)
         it.second = true; // Indicate islands are active
     
     // Construct topology according to the number of islands
-    topo.construct(islands.size());
+    topo->construct(islands.size());
     
     // Create table
     table = createTable();
diff --git a/smp/src/islandModel.h b/smp/src/islandModel.h
index 1b76550..7f6406c 100644
--- a/smp/src/islandModel.h
+++ b/smp/src/islandModel.h
@@ -99,7 +99,7 @@ protected:
     std::queue<std::pair<eoPop<EOT>,AIsland<EOT>*>> listEmigrants;
     Bimap<unsigned, AIsland<EOT>*> table;
     std::vector<std::pair<AIsland<EOT>*, bool>> islands;
-    AbstractTopology& topo;
+    AbstractTopology* topo;
     std::vector<std::shared_future<bool>> sentMessages;
     std::mutex m;
     std::atomic<bool> running;
-- 
2.43.0


From cd34967b86f7cf99a6dbedeb8cb5e2abcc7383a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:04 +0000
Subject: [PATCH 125/160] fix: protect the topology of a running island model

replacing the topology of a running island model raced with its construction and with the isolation of stopped islands (data race, double free).
---
 smp/src/islandModel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smp/src/islandModel.cpp b/smp/src/islandModel.cpp
index 96836d4..87911e0 100644
--- a/smp/src/islandModel.cpp
+++ b/smp/src/islandModel.cpp
@@ -80,6 +80,8 @@ void paradiseo::smp::IslandModel<EOT>::operator()()
             // If an island is stopped we need to isolate its node in the topology
             if(it.second && it.first->isStopped())
             {
+                // The topology may be changed meanwhile
+                std::lock_guard<std::mutex> lock(m);
                 it.second = false;
                 topo->isolateNode(table.getLeft()[it.first]);
             }
@@ -180,6 +182,8 @@ bool paradiseo::smp::IslandModel<EOT>::isRunning() const
 template<class EOT> 
 void paradiseo::smp::IslandModel<EOT>::initModel(void)
 {
+    std::lock_guard<std::mutex> lock(m);
+    
     // Preparing islands
     for(auto& it : islands)
         it.second = true; // Indicate islands are active
-- 
2.43.0


From acd98e328c6f1e45d73464c39106dd510fb6a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:44 +0000
Subject: [PATCH 126/160] fix: ring topology never updated the best of its
 neighbourhoods

eoRingTopology::updateNeighborhood looped over an unsigned range that is empty for any size above 1 and took the dimension for the swarm size, so neighbourhood bests stayed those of the initial swarm.
---
 eo/src/eoRingTopology.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/eo/src/eoRingTopology.h b/eo/src/eoRingTopology.h
index a5526fe..1420640 100644
--- a/eo/src/eoRingTopology.h
+++ b/eo/src/eoRingTopology.h
@@ -118,11 +118,10 @@ public:
                         _po.bestPositions[i]=_po[i];
         }
         // update the global best if the given particle is "better"
-        for (unsigned i=-neighborhoodSize+1; i < neighborhoodSize; i++)
+        for (unsigned i=0; i < neighborhoods.size(); i++)
                 {
-                        unsigned indi = (_po.size()+_indice+i)%_po.size();
-                        if (_po.fitness() > neighborhoods[indi].best().fitness())
-                                neighborhoods[indi].best(_po);
+                        if (neighborhoods[i].contains(_indice) && _po.fitness() > neighborhoods[i].best().fitness())
+                                neighborhoods[i].best(_po);
                 }
      }
 
-- 
2.43.0


From bdf495993e03218c6071a96c7a559abdc7c44bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:44 +0000
Subject: [PATCH 127/160] fix: inertia weighted and variable weight velocities
 could not be instantiated

eoFixedInertiaWeightedVelocity, eoVariableInertiaWeightedVelocity and eoConstrictedVariableWeightVelocity did not define getTopology and were abstract.
---
 eo/src/eoConstrictedVariableWeightVelocity.h | 7 +++++++
 eo/src/eoFixedInertiaWeightedVelocity.h      | 7 +++++++
 eo/src/eoVariableInertiaWeightedVelocity.h   | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index 3eb1736..012fd2f 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -185,6 +185,13 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
+    //! eoTopology<POT> getTopology
+    //! @return topology
+
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
 
 
 protected:
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index 3e4aae4..b6a9c27 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -171,6 +171,13 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
+    //! eoTopology<POT> getTopology
+    //! @return topology
+
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
 
 
 protected:
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index 0061d97..dcca1ab 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -177,6 +177,13 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
+    //! eoTopology<POT> getTopology
+    //! @return topology
+
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
 
 
 protected:
-- 
2.43.0


From 44fb876c5aa6557548e68bb18f269210094998f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:44 +0000
Subject: [PATCH 128/160] fix: standard, extended and integer velocities
 ignored their bound modifier

eoStandardVelocity, eoExtendedVelocity and eoIntegerVelocity never applied the eoRealBoundModifier given to them.
---
 eo/src/eoExtendedVelocity.h | 3 +++
 eo/src/eoIntegerVelocity.h  | 3 +++
 eo/src/eoStandardVelocity.h | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/eo/src/eoExtendedVelocity.h b/eo/src/eoExtendedVelocity.h
index 36024e5..6380c1e 100644
--- a/eo/src/eoExtendedVelocity.h
+++ b/eo/src/eoExtendedVelocity.h
@@ -165,6 +165,9 @@ public:
                                         + r2 * (topology.best (_indice)[j] - _po[j])
                                         + r3 * (topology.globalBest()[j] - _po[j]);
 
+            /* modify the bounds */
+            bndsModifier(bounds,j);
+
             /* check bounds */
             if (bounds.isMinBounded(j))
                 newVelocity=std::max(newVelocity,bounds.minimum(j));
diff --git a/eo/src/eoIntegerVelocity.h b/eo/src/eoIntegerVelocity.h
index d65dcc4..7940d9b 100644
--- a/eo/src/eoIntegerVelocity.h
+++ b/eo/src/eoIntegerVelocity.h
@@ -150,6 +150,9 @@ public:
         {
             newVelocity= round (c1 *  _po.velocities[j] + r2 * (_po.bestPositions[j] - _po[j]) +  r3 * (topology.best (_indice)[j] - _po[j]));
 
+            /* modify the bounds */
+            bndsModifier(bounds,j);
+
             /* check bounds */
             if (bounds.isMinBounded(j))
                 newVelocity=std::max(newVelocity,bounds.minimum(j));
diff --git a/eo/src/eoStandardVelocity.h b/eo/src/eoStandardVelocity.h
index b1c22b8..3c2d0fc 100644
--- a/eo/src/eoStandardVelocity.h
+++ b/eo/src/eoStandardVelocity.h
@@ -150,6 +150,9 @@ public:
         {
             newVelocity= omega *  _po.velocities[j] + r1 * (_po.bestPositions[j] - _po[j]) +  r2 * (topology.best (_indice)[j] - _po[j]);
 
+            /* modify the bounds */
+            bndsModifier(bounds,j);
+
             /* check bounds */
             if (bounds.isMinBounded(j))
                 newVelocity=std::max(newVelocity,bounds.minimum(j));
-- 
2.43.0


From 24e037a39a98a865d48d7bda217607b04904497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:44 +0000
Subject: [PATCH 129/160] fix: linear weight updater kept references to its
 constructor arguments

eoLinearDecreasingWeightUp kept references to its arguments: weights read freed temporaries.
---
 eo/src/eoLinearDecreasingWeightUp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoLinearDecreasingWeightUp.h b/eo/src/eoLinearDecreasingWeightUp.h
index e6a1b31..57243dd 100644
--- a/eo/src/eoLinearDecreasingWeightUp.h
+++ b/eo/src/eoLinearDecreasingWeightUp.h
@@ -67,8 +67,8 @@ public:
     }
 
 protected:
-    const StopCriteriaType & stop;
-    const WeightType & initialValue,finalValue;
+    const StopCriteriaType stop;
+    const WeightType initialValue,finalValue;
     eoValueParam<StopCriteriaType> & counter; // a counter of the number of past events (should say "generations")
 };
 
-- 
2.43.0


From 66be2c95e448e8d69e735edb9df02fff85456ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:44 +0000
Subject: [PATCH 130/160] fix: validity of the best fitness of a particle

PO left the validity of the best fitness uninitialised and tied reading the best fitness to the validity of the current one: it was unreadable once the particle had moved.
---
 eo/src/PO.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/PO.h b/eo/src/PO.h
index 477f165..33414b3 100644
--- a/eo/src/PO.h
+++ b/eo/src/PO.h
@@ -53,7 +53,7 @@ public:
         Fitness must have a ctor which takes 0 as a value. Best fitness mush also have the same constructor.
     */
     PO ():repFitness (Fitness ()), invalidFitness (true),
-            bestFitness (Fitness()){}
+            bestFitness (Fitness()), invalidBestFitness (true){}
 
 
     /// Return fitness value.
@@ -79,7 +79,7 @@ public:
     */
     Fitness best () const
     {
-        if (invalid ())
+        if (invalidBest ())
             throw eoInvalidFitnessError("invalid best fitness in PO.h");
         return bestFitness;
     }
-- 
2.43.0


From 90d0342ba8436cf99fa14800736c1bab20a89a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:32 +0000
Subject: [PATCH 131/160] fix: NK landscape instances could not be read from a
 file

load of nkLandscapesEval, nkpLandscapesEval and nkqLandscapesEval never read the section marks and refused every file.
---
 problems/eval/nkLandscapesEval.h  | 2 ++
 problems/eval/nkpLandscapesEval.h | 2 ++
 problems/eval/nkqLandscapesEval.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/problems/eval/nkLandscapesEval.h b/problems/eval/nkLandscapesEval.h
index 73d4908..8ac8034 100644
--- a/problems/eval/nkLandscapesEval.h
+++ b/problems/eval/nkLandscapesEval.h
@@ -168,6 +168,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	std::string str = "nkLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N and K." ;
 	throw eoException(str);
@@ -182,6 +183,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	std::string str = "nkLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 343d25d..85729c9 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -129,6 +129,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkpLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N, K, and p." ;
 	throw eoException(str);
@@ -143,6 +144,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkpLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index 368bae9..b7cf4e7 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -128,6 +128,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkqLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N, K, and q." ;
 	throw eoException(str);
@@ -142,6 +143,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkqLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
-- 
2.43.0


From 66255f57aa54fb07f523433232280fc5941805f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:32 +0000
Subject: [PATCH 132/160] fix: neutral NK landscapes built from a file used the
 reader of plain NK landscapes

the file constructors of nkpLandscapesEval and nkqLandscapesEval ran the base class reader, which refuses their files.
---
 problems/eval/nkpLandscapesEval.h | 2 +-
 problems/eval/nkqLandscapesEval.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 85729c9..422be7f 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -89,7 +89,7 @@ public:
    *
    * @param _fileName the name of the file of the instance
    */
-  nkpLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>(_fileName) { }
+  nkpLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>() { load(_fileName); }
 
   /**
    * Load the instance from a file
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index b7cf4e7..67b3433 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -88,7 +88,7 @@ public:
    *
    * @param _fileName the name of the file of the instance
    */
-  nkqLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>(_fileName) { }
+  nkqLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>() { load(_fileName); }
 
   /**
    * Load the instance from a file
-- 
2.43.0


From 35ec351b984cc543b8f8f523d8b2b6311795e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:32 +0000
Subject: [PATCH 133/160] fix: NK landscape instances lost precision when saved

save of nkLandscapesEval, nkpLandscapesEval and nkqLandscapesEval wrote contributions with 6 digits: the instance read back gives other fitness values.
---
 problems/eval/nkLandscapesEval.h  | 1 +
 problems/eval/nkpLandscapesEval.h | 1 +
 problems/eval/nkqLandscapesEval.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/problems/eval/nkLandscapesEval.h b/problems/eval/nkLandscapesEval.h
index 8ac8034..e9397e8 100644
--- a/problems/eval/nkLandscapesEval.h
+++ b/problems/eval/nkLandscapesEval.h
@@ -239,6 +239,7 @@ public:
     file.open(_fileName, std::fstream::out);
 
     if (file.is_open()) {
+      file.precision(17);
       file << "c name of the file : " << _fileName << std::endl;
       file << "p NK " << N << " " << K <<std::endl;
 
diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 422be7f..9014030 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -177,6 +177,7 @@ public:
     file.open(_fileName, ios::out);
 
     if (file.is_open()) {
+      file.precision(17);
       file << "c name of the file : " << _fileName << endl;
       file << "p NKp " << N << " " << K << " " << p << endl;
 
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index 67b3433..7f2fd79 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -176,6 +176,7 @@ public:
     file.open(_fileName, ios::out);
 
     if (file.is_open()) {
+      file.precision(17);
       file << "c name of the file : " << _fileName << endl;
       file << "p NKq " << N << " " << K << " " << q << endl;
 
-- 
2.43.0


From 3e8923ab42d2b746e7d7ae38a8ebd0d53e6bbff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:32 +0000
Subject: [PATCH 134/160] fix: loading an NK landscape over another one leaked
 its tables

load of the NK landscapes leaked the tables of the previous instance and the file constructor left the table pointers uninitialised.
---
 problems/eval/nkLandscapesEval.h  | 3 ++-
 problems/eval/nkpLandscapesEval.h | 1 +
 problems/eval/nkqLandscapesEval.h | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/problems/eval/nkLandscapesEval.h b/problems/eval/nkLandscapesEval.h
index e9397e8..90d08f2 100644
--- a/problems/eval/nkLandscapesEval.h
+++ b/problems/eval/nkLandscapesEval.h
@@ -80,7 +80,7 @@ public:
    *
    * @param _fileName the name of the file of the instance
    */
-  nkLandscapesEval(const char * _fileName)
+  nkLandscapesEval(const char * _fileName) : N(0), K(0), tables(NULL), links(NULL)
   { 
     std::string fname(_fileName);
     load(fname);
@@ -164,6 +164,7 @@ public:
       }
 
       // read parameters N and K
+      deleteTables();
       file >> N >> K;
       buildTables();
 
diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 9014030..720ebc3 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -125,6 +125,7 @@ public:
       }
 
       // read parameters N, K and p
+      this->deleteTables();
       file >> N >> K >> p;
       buildTables();
 
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index 7f2fd79..2df3de0 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -124,6 +124,7 @@ public:
       }
 
       // read parameters N, K and q
+      this->deleteTables();
       file >> N >> K >> q;
       buildTables();
 
-- 
2.43.0


From 3a94efb46cc8456794722095321680d208f1f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:47 +0000
Subject: [PATCH 135/160] fix: size the shares of the static assignment before
 filling them

StaticAssignmentAlgorithm wrote its shares into a vector that had only been reserved, and kept the old shares (or none, read out of range) when asked for no run.
---
 eo/src/mpi/eoMpiAssignmentAlgorithm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp b/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
index 39ce02f..1d0a061 100644
--- a/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
+++ b/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
@@ -147,14 +147,14 @@ namespace eo
             busy.resize( nbWorkers, false );
             realRank = workers;
 
+            attributions.clear();
+            attributions.resize( nbWorkers, 0 );
+
             if( runs <= 0 )
             {
                 return;
             }
 
-            attributions.clear();
-            attributions.reserve( nbWorkers );
-
             // Let be the euclidean division of runs by nbWorkers :
             // runs == q * nbWorkers + r, 0 <= r < nbWorkers
             // This one liner affects q requests to each worker
-- 
2.43.0


From 9bc5b9a0076a4b2bbfc299d2026832ac0f5e1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:47 +0000
Subject: [PATCH 136/160] fix: free the receive buffer of the communicator as
 an array

communicator released with delete a buffer allocated with new[].
---
 eo/src/mpi/implMpi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/mpi/implMpi.cpp b/eo/src/mpi/implMpi.cpp
index d045da3..1796a30 100644
--- a/eo/src/mpi/implMpi.cpp
+++ b/eo/src/mpi/implMpi.cpp
@@ -58,7 +58,7 @@ namespace mpi
     {
         if( _buf )
         {
-            delete _buf;
+            delete [] _buf;
             _buf = 0;
         }
     }
-- 
2.43.0


From 35cce37ef07f2c2e5bf95e88672be399013af11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:47 +0000
Subject: [PATCH 137/160] fix: let the rank 0 be a worker

a job whose master is not rank 0 ignored rank 0 as an assignee: its task was never sent and the master waited for ever.
---
 eo/src/mpi/eoMpi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/mpi/eoMpi.h b/eo/src/mpi/eoMpi.h
index 1038078..3b67d67 100644
--- a/eo/src/mpi/eoMpi.h
+++ b/eo/src/mpi/eoMpi.h
@@ -710,7 +710,7 @@ namespace eo
                         {
                             timerStat.start("master_wait_for_assignee");
                             int assignee = assignmentAlgo.get( );
-                            while( assignee <= 0 )
+                            while( assignee < 0 )
                             {
                                 eo::log << eo::debug << "[M" << comm.rank() << "] Waitin' for node..." << std::endl;
 
-- 
2.43.0


From 62c45d93566c601241a6bbcc244729a480d555f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:47 +0000
Subject: [PATCH 138/160] fix: write serialised reals with all their digits

serialised reals lost their last digit: 16 digits do not identify a double.
---
 eo/src/serial/SerialString.h | 2 +-
 eo/src/serial/Utils.h        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/serial/SerialString.h b/eo/src/serial/SerialString.h
index 2ef1f94..95edcfa 100644
--- a/eo/src/serial/SerialString.h
+++ b/eo/src/serial/SerialString.h
@@ -83,7 +83,7 @@ namespace eoserial
         inline void String::deserialize( T & value ) const
         {
             std::stringstream ss;
-            ss.precision(std::numeric_limits<double>::digits10 + 1);
+            ss.precision(std::numeric_limits<double>::max_digits10);
             ss << *this;
             ss >> value;
         }
diff --git a/eo/src/serial/Utils.h b/eo/src/serial/Utils.h
index 5acc558..b0874c8 100644
--- a/eo/src/serial/Utils.h
+++ b/eo/src/serial/Utils.h
@@ -269,7 +269,7 @@ namespace eoserial
         Entity* operator()( const T& value )
         {
             std::stringstream ss;
-            ss.precision(std::numeric_limits<double>::digits10 + 1);
+            ss.precision(std::numeric_limits<double>::max_digits10);
             ss << value;
             return new String(ss.str());
         }
@@ -419,7 +419,7 @@ namespace eoserial
     String* make( const T & value )
     {
         std::stringstream ss;
-        ss.precision(std::numeric_limits<double>::digits10 + 1);
+        ss.precision(std::numeric_limits<double>::max_digits10);
         ss << value;
         return new String( ss.str() );
     }
-- 
2.43.0


From 0b5ac2f336c942b5f14de6b932fa39ee0191abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:47 +0000
Subject: [PATCH 139/160] fix: borrow from the seconds correctly in eoTimer

eoTimer added the negative microseconds instead of subtracting them: user and system times were up to one second too long.
---
 eo/src/utils/eoTimer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoTimer.h b/eo/src/utils/eoTimer.h
index 5ced8c6..599cfb9 100644
--- a/eo/src/utils/eoTimer.h
+++ b/eo/src/utils/eoTimer.h
@@ -86,7 +86,7 @@ class eoTimer
                 uuremainder += remainder;
             } else
             {
-                uuremainder += ( 1000000 - remainder );
+                uuremainder += ( 1000000 + remainder );
                 --result;
             }
 
@@ -119,7 +119,7 @@ class eoTimer
                 usremainder += remainder;
             } else
             {
-                usremainder += ( 1000000 - remainder );
+                usremainder += ( 1000000 + remainder );
                 --result;
             }
 
-- 
2.43.0


From a3cf1342c5801e4821c5f58833b5ad0845e7fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:00 +0000
Subject: [PATCH 140/160] fix: replace the operator of a named forge slot

setting up a slot of eoForgeMap again does not compile, and would keep the deleted operator.
---
 eo/src/eoForge.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 3940715..e3ef702 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -479,7 +479,7 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
             delete this->at(name); // Silent on nullptr.
             auto pfo = new eoForgeOperator<Itf,Op,std::decay_t<Args>...>(
                     std::forward<Args>(args)...);
-            this->emplace({name, pfo});
+            this->at(name) = pfo;
         }
 
         /** Specialization for empty constructors.
@@ -489,7 +489,7 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
         {
             delete this->at(name);
             auto pfo = new eoForgeOperator<Itf,Op>;
-            this->emplace({name, pfo});
+            this->at(name) = pfo;
         }
 
         virtual ~eoForgeMap()
-- 
2.43.0


From c67294c7ae119c3b3b61696d9db46e238341af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:25 +0000
Subject: [PATCH 141/160] fix: let forges cache the pointers they share

instantiate_ptr with cache enabled gives a new operator at each call.
---
 eo/src/eoForge.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index e3ef702..4a52cb3 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -139,7 +139,7 @@ class eoForgeOperator : public eoForgeInterface<Itf>
 
         std::shared_ptr<Itf> instantiate_ptr(bool no_cache = true) override
         {
-            if(no_cache or _instantiated == nullptr) {
+            if(no_cache or _instantiated_ptr == nullptr) {
                 // if(_instantiated) {
                     // delete _instantiated;
                 // }
@@ -202,7 +202,7 @@ class eoForgeOperator<Itf,Op> : public eoForgeInterface<Itf>
 
         std::shared_ptr<Itf> instantiate_ptr( bool no_cache = true ) override
         {
-            if(no_cache or _instantiated == nullptr) {
+            if(no_cache or _instantiated_ptr == nullptr) {
                 _instantiated_ptr = std::shared_ptr<Op>();
             }
             return _instantiated_ptr;
-- 
2.43.0


From 30efa83befa2c90dd4b47fd6afa5c59eb4604058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:25 +0000
Subject: [PATCH 142/160] fix: build the operator behind a shared pointer

instantiate_ptr of an operator declared without argument gives a null pointer.
---
 eo/src/eoForge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 4a52cb3..3983b77 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -203,7 +203,7 @@ class eoForgeOperator<Itf,Op> : public eoForgeInterface<Itf>
         std::shared_ptr<Itf> instantiate_ptr( bool no_cache = true ) override
         {
             if(no_cache or _instantiated_ptr == nullptr) {
-                _instantiated_ptr = std::shared_ptr<Op>();
+                _instantiated_ptr = std::make_shared<Op>();
             }
             return _instantiated_ptr;
         }
-- 
2.43.0


From a57fa50ce26960c33636694c92587b1583c712bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:25 +0000
Subject: [PATCH 143/160] fix: build shared operators in place

instantiate_ptr copies a temporary, so an operator referring to its own members is left with dangling references.
---
 eo/src/eoForge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 3983b77..38dbd3d 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -169,7 +169,7 @@ class eoForgeOperator : public eoForgeInterface<Itf>
         template<class T>
         std::shared_ptr<Op> op_constructor_ptr(T& args)
         {
-            return std::make_shared<Op>( std::make_from_tuple<Op>(args) );
+            return std::shared_ptr<Op>( op_constructor(args) );
         }
         /** @} */
 
-- 
2.43.0


From a4ec109d6a02287466d00c90f8c3c438e353b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:25 +0000
Subject: [PATCH 144/160] fix: pass the arguments of make_eoEvalFoundryEA in
 order

make_eoEvalFoundryEA does not compile.
---
 eo/src/eoEvalFoundryEA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoEvalFoundryEA.h b/eo/src/eoEvalFoundryEA.h
index 355d0ef..6e8f6f4 100644
--- a/eo/src/eoEvalFoundryEA.h
+++ b/eo/src/eoEvalFoundryEA.h
@@ -173,7 +173,7 @@ eoEvalFoundryEA<EOT,SUB>&
         const size_t pop_size
     )
 {
-    return *(new eoEvalFoundryEA<EOT,SUB>(subpb_init, subpb_eval, foundry, penalization, pop_size));
+    return *(new eoEvalFoundryEA<EOT,SUB>(foundry, subpb_init, pop_size, subpb_eval, penalization));
 }
 
 #endif // _eoEvalFoundryEA_H_
-- 
2.43.0


From 0659664b4e4ab988a46d9df9eccab13deba4fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:33 +0000
Subject: [PATCH 145/160] fix: size the offspring of eoFastGA from the
 population of each run

an eoFastGA without offspring size run on a second population makes as many offspring as the first population had individuals.
---
 eo/src/eoFastGA.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/eo/src/eoFastGA.h b/eo/src/eoFastGA.h
index 91300d4..ed13729 100644
--- a/eo/src/eoFastGA.h
+++ b/eo/src/eoFastGA.h
@@ -86,15 +86,12 @@ public:
 #endif
         // Set lambda to the pop size
         // if it was not set up at construction.
-        if(_offsprings_size == 0) {
-            // eo::log << eo::debug << "Set offspring size to: " << pop.size() << std::endl;
-            _offsprings_size = pop.size();
-        }
+        const double offsprings_size = _offsprings_size == 0 ? pop.size() : _offsprings_size;
 
         do {
             eoPop<EOT> offsprings;
 
-            for(size_t i=0; i < _offsprings_size; ++i) {
+            for(size_t i=0; i < offsprings_size; ++i) {
                 // eo::log << eo::xdebug << "\tOffspring #" << i << std::endl;
 
                 if(eo::rng.flip(_rate_crossover)) {
@@ -148,7 +145,7 @@ public:
                     offsprings.push_back(sol3);
                 }
             }
-            assert(offsprings.size() == _offsprings_size);
+            assert(offsprings.size() == offsprings_size);
 
             _pop_eval(pop, offsprings);
             _replace(pop, offsprings);
-- 
2.43.0


From 87eebe3a3848110e20a9a41b9b9ed0bd687cc6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:44 +0000
Subject: [PATCH 146/160] fix: read the replacement parameters from the
 replacement option

EPTour(T), SSGADet(T) and SSGAStoch(t) of make_algo_scalar took their argument from the selection option (out-of-bounds read when it has none).
---
 eo/src/do/make_algo_scalar.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/do/make_algo_scalar.h b/eo/src/do/make_algo_scalar.h
index 7819a42..76cc273 100644
--- a/eo/src/do/make_algo_scalar.h
+++ b/eo/src/do/make_algo_scalar.h
@@ -240,7 +240,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("6"));
         }
       else        // parameter passed by user as EPTour(T)
-        detSize = atoi(ppSelect.second[0].c_str());
+        detSize = atoi(ppReplace.second[0].c_str());
 
       replace = new eoEPReplacement<EOT>(detSize);
     }
@@ -260,7 +260,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("2"));
         }
       else        // parameter passed by user as SSGADet(T)
-        detSize = atoi(ppSelect.second[0].c_str());
+        detSize = atoi(ppReplace.second[0].c_str());
 
       replace = new eoSSGADetTournamentReplacement<EOT>(detSize);
     }
@@ -275,7 +275,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("1"));
         }
       else        // parameter passed by user as SSGADet(T)
-        p = atof(ppSelect.second[0].c_str());
+        p = atof(ppReplace.second[0].c_str());
 
       replace = new eoSSGAStochTournamentReplacement<EOT>(p);
     }
-- 
2.43.0


From 9081fd274ec62488b7437e3854534ff52178c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:44 +0000
Subject: [PATCH 147/160] fix: keep the best individuals of a load file that is
 too large

make_pop kept the first individuals of a saved population larger than popSize instead of the best ones it announces.
---
 eo/src/do/make_pop.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/eo/src/do/make_pop.h b/eo/src/do/make_pop.h
index 516d7a7..813257d 100644
--- a/eo/src/do/make_pop.h
+++ b/eo/src/do/make_pop.h
@@ -79,6 +79,12 @@ eoPop<EOT>&  do_make_pop(eoParser & _parser, eoState& _state, eoInit<EOT> & _ini
       inState.registerObject(pop);
       inState.registerObject(rng);
       inState.load(loadNameParam.value()); //  load the pop and the rng
+      if (pop.size() > popSize.value())
+        {
+          std::cerr << "WARNING, Load file contained too many individuals. Only the best will be retained" << std::endl;
+          pop.sort();
+          pop.resize(popSize.value());
+        }
       // the fitness is read in the file:
       // do only evaluate the pop if the fitness has changed
       if (recomputeFitnessParam.value())
@@ -88,11 +94,6 @@ eoPop<EOT>&  do_make_pop(eoParser & _parser, eoState& _state, eoInit<EOT> & _ini
         }
       if (pop.size() < popSize.value())
         std::cerr << "WARNING, only " << pop.size() << " individuals read in file " << loadNameParam.value() << "\nThe remaining " << popSize.value() - pop.size() << " will be randomly drawn" << std::endl;
-      if (pop.size() > popSize.value())
-        {
-          std::cerr << "WARNING, Load file contained too many individuals. Only the best will be retained" << std::endl;
-          pop.resize(popSize.value());
-        }
     }
   else				// nothing loaded from a file
     {
-- 
2.43.0


From 4d60345faa54f5daaa4a4f836ce70ca1e9f64936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:53 +0000
Subject: [PATCH 148/160] fix: let make_op leave out the crossovers or the
 mutations

make_op for bit strings and real vectors dereferenced a null operator when all crossover rates, or all mutation rates, are 0.
---
 eo/src/es/make_op_real.h |  8 +++++---
 eo/src/ga/make_op.h      | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/eo/src/es/make_op_real.h b/eo/src/es/make_op_real.h
index 0c202d7..2522d05 100644
--- a/eo/src/es/make_op_real.h
+++ b/eo/src/es/make_op_real.h
@@ -274,13 +274,15 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoRealInitBounded<
   _state.storeFunctor(cross);
   ptQuad = new eoQuadCloneOp<EOT>;
   _state.storeFunctor(ptQuad);
-  cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
-  cross->add(*ptQuad, 1-pCrossParam.value()); // clone operator
+  if (bCross)
+    cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
+  cross->add(*ptQuad, bCross ? 1-pCrossParam.value() : 1.0); // clone operator
 
   // now the sequential
   eoSequentialOp<EOT> & op =  _state.storeFunctor(new eoSequentialOp<EOT>);
   op.add(*cross, 1.0);   // always crossover (but clone with prob 1-pCross
-  op.add(*ptCombinedMonOp, pMutParam.value());
+  if (bMut)
+    op.add(*ptCombinedMonOp, pMutParam.value());
 
   // that's it!
   return op;
diff --git a/eo/src/ga/make_op.h b/eo/src/ga/make_op.h
index 6b95b2c..744a026 100644
--- a/eo/src/ga/make_op.h
+++ b/eo/src/ga/make_op.h
@@ -115,11 +115,11 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoInit<EOT>& /*_in
       throw eoParamException("Invalid uRate");
 
     // minimum check
-    // bool bCross = true; // not used ?
+    bool bCross = true;
     if (onePointRateParam.value()+twoPointsRateParam.value()+uRateParam.value()==0)
       {
         std::cerr << "Warning: no crossover" << std::endl;
-        // bCross = false;
+        bCross = false;
       }
 
     // Create the CombinedQuadOp
@@ -174,11 +174,11 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoInit<EOT>& /*_in
       throw eoParamException("Invalid kBitRate");
 
     // minimum check
-    // bool bMut = true; // not used ?
-    if (bitFlipRateParam.value()+oneBitRateParam.value()==0)
+    bool bMut = true;
+    if (bitFlipRateParam.value()+oneBitRateParam.value()+kBitRateParam.value()==0)
       {
         std::cerr << "Warning: no mutation" << std::endl;
-        // bMut = false;
+        bMut = false;
       }
 
     // Create the CombinedMonOp
@@ -216,14 +216,16 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoInit<EOT>& /*_in
   _state.storeFunctor(cross);
   ptQuad = new eoQuadCloneOp<EOT>;
   _state.storeFunctor(ptQuad);
-  cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
-  cross->add(*ptQuad, 1-pCrossParam.value()); // clone operator
+  if (bCross)
+    cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
+  cross->add(*ptQuad, bCross ? 1-pCrossParam.value() : 1.0); // clone operator
 
   // now the sequential
   eoSequentialOp<EOT> *op = new eoSequentialOp<EOT>;
   _state.storeFunctor(op);
   op->add(*cross, 1.0);  // always crossover (but clone with prob 1-pCross
-  op->add(*ptCombinedMonOp, pMutParam.value());
+  if (bMut)
+    op->add(*ptCombinedMonOp, pMutParam.value());
 
   // that's it!
   return *op;
-- 
2.43.0


From a0f1f56aa4739115de21b00cf6d90159d67171ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:30 +0000
Subject: [PATCH 149/160] fix: read the niche size of Sharing as a real number

do_make_ea_moeo truncated the niche size of Sharing(nicheSize) to an integer (0 for any size below 1).
---
 moeo/src/do/make_ea_moeo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/do/make_ea_moeo.h b/moeo/src/do/make_ea_moeo.h
index 76559e1..de1546e 100644
--- a/moeo/src/do/make_ea_moeo.h
+++ b/moeo/src/do/make_ea_moeo.h
@@ -159,7 +159,7 @@ moeoEA < MOEOT > & do_make_ea_moeo(eoParser & _parser, eoState & _state, eoEvalF
         }
       else
         {
-          nicheSize = atoi(diversityParamValue.second[0].c_str());
+          nicheSize = atof(diversityParamValue.second[0].c_str());
         }
       diversityAssignment = new moeoFrontByFrontSharingDiversityAssignment < MOEOT> (nicheSize);
     }
-- 
2.43.0


From f266204ab4d15a0e3eaac5dea373825d9d1705dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:22 +0000
Subject: [PATCH 150/160] fix: assign fitness values before selection in
 generational runs

do_make_ea_moeo with replacement=Generational threw an invalid fitness error at the second generation of any run with tournament selection.
---
 moeo/src/do/make_ea_moeo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moeo/src/do/make_ea_moeo.h b/moeo/src/do/make_ea_moeo.h
index de1546e..35d637c 100644
--- a/moeo/src/do/make_ea_moeo.h
+++ b/moeo/src/do/make_ea_moeo.h
@@ -288,7 +288,8 @@ moeoEA < MOEOT > & do_make_ea_moeo(eoParser & _parser, eoState & _state, eoEvalF
   eoGeneralBreeder < MOEOT > * breed = new eoGeneralBreeder < MOEOT > (*select, _op, offspringRateParam.value());
   _state.storeFunctor(breed);
   // the eoEasyEA
-  moeoEA < MOEOT > * algo = new moeoEasyEA < MOEOT > (_continue, _eval, *breed, *replace, *fitnessAssignment, *diversityAssignment);
+  // a generational replacement does not assign fitness and diversity values to the new population
+  moeoEA < MOEOT > * algo = new moeoEasyEA < MOEOT > (_continue, _eval, *breed, *replace, *fitnessAssignment, *diversityAssignment, replacementParam == std::string("Generational"));
   _state.storeFunctor(algo);
   return *algo;
 
-- 
2.43.0


From 9a326387b4626dec8bd0c22b2554a56fd64d7f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:29 +0000
Subject: [PATCH 151/160] fix: set the cumulation constant of CMA-ES instead of
 scaling it

CMAParams::defaults multiplied the uninitialised step-size cumulation constant instead of setting it.
---
 eo/src/es/CMAParams.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index d27204f..8c182b1 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -209,7 +209,7 @@ void CMAParams::defaults(unsigned n_, unsigned maxgen_) {
     weights /= sumw;
 
     mucov = mueff;
-    ccumsig *= (mueff + 2.) / (n + mueff + 3.);
+    ccumsig = (mueff + 2.) / (n + mueff + 3.);
     ccumcov = 4. / (n + 4);
 
     double t1 = 2. / ((n+1.4142)*(n+1.4142));
-- 
2.43.0


From cc43e3179fce4075f81509cbe95d2a277654e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:29 +0000
Subject: [PATCH 152/160] fix: give CMA-ES as many weights as parents

a mu given on the command line left the number of recombination weights of the default mu, so that re-estimation read past them or ignored parents.
---
 eo/src/es/CMAParams.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index 8c182b1..e25cf34 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -100,6 +100,8 @@ CMAParams::CMAParams(eoParser& parser, unsigned dimensionality) {
 
     /* handle selection weights */
 
+    weights.resize(mu);
+
     int weight_type = parser.createParam(
             0,
             "weighting",
-- 
2.43.0


From f8bc97f7bc64bfb4f042d99306867ea7ba8f047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:29 +0000
Subject: [PATCH 153/160] fix: honour the documented CMA-ES weighting schemes

the equal and the linear weighting schemes were swapped with respect to their documentation.
---
 eo/src/es/CMAParams.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index e25cf34..5883630 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -112,14 +112,14 @@ CMAParams::CMAParams(eoParser& parser, unsigned dimensionality) {
     switch (weight_type) {
         case 1:
             {
-                for (unsigned i = 0; i < weights.size(); ++i) {
-                    weights[i] = mu - i;
-                }
+                weights = 1.;
                 break;
             }
         case 2:
             {
-                weights = 1.;
+                for (unsigned i = 0; i < weights.size(); ++i) {
+                    weights[i] = mu - i;
+                }
                 break;
             }
         default :
-- 
2.43.0


From 67768025bb39f9a16228f9971839da6303934c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:29 +0000
Subject: [PATCH 154/160] fix: normalise the CMA-ES path by the updates made

the norm of the step-size path was corrected for one update too few, dividing by zero in the first one, so that the covariance path always skipped it.
---
 eo/src/es/CMAState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/CMAState.cpp b/eo/src/es/CMAState.cpp
index 897b32f..ec2ab4d 100644
--- a/eo/src/es/CMAState.cpp
+++ b/eo/src/es/CMAState.cpp
@@ -164,7 +164,7 @@ struct CMAStateImpl {
 
         double chiN =  sqrt((double) p.n) * (1. - 1./(4.*p.n) + 1./(21.*p.n*p.n));
         /* cumulation for covariance matrix (pc) using B*D*z~N(0,C) */
-        double hsig = sqrt(psxps) / sqrt(1. - pow(1.-p.ccumsig, 2.*gen)) / chiN < 1.5 + 1./(p.n-0.5);
+        double hsig = sqrt(psxps) / sqrt(1. - pow(1.-p.ccumsig, 2.*(gen+1))) / chiN < 1.5 + 1./(p.n-0.5);
 
         pc = (1. - p.ccumcov) * pc + hsig * sqrt(p.ccumcov * (2. - p.ccumcov)) * BDz;
 
-- 
2.43.0


From 1992f103d5527bcb3ff6c457b93a2a36e1d47204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:29 +0000
Subject: [PATCH 155/160] fix: weigh the correction of a stalled CMA-ES path

when the evolution path stalls the covariance matrix was inflated by the whole correction instead of its share in the rank-one update.
---
 eo/src/es/CMAState.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eo/src/es/CMAState.cpp b/eo/src/es/CMAState.cpp
index ec2ab4d..1514631 100644
--- a/eo/src/es/CMAState.cpp
+++ b/eo/src/es/CMAState.cpp
@@ -205,9 +205,10 @@ struct CMAStateImpl {
                     c_row[j] =
                                 (1 - p.ccov) * c_row[j]
                                         +
-                                p.ccov * (1./p.mucov) * pc[i] * pc[j]
+                                p.ccov * (1./p.mucov)
+                                    * (pc[i] * pc[j]
                                         +
-                                (1-hsig) * p.ccumcov * (2. - p.ccumcov) * c_row[j];
+                                       (1-hsig) * p.ccumcov * (2. - p.ccumcov) * c_row[j]);
 
                     /*C[i][j] = (1 - p.ccov) * C[i][j]
                         + sp.ccov * (1./sp.mucov)
-- 
2.43.0


From 4fdcea74efff5103c967c5e40be000f17a1fde5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:29 +0000
Subject: [PATCH 156/160] fix: report an eigen decomposition that did not
 converge

an eigen decomposition stopped by its iteration limit reported fewer iterations, and its unfinished result was used as if sound.
---
 eo/src/es/eig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/eig.cpp b/eo/src/es/eig.cpp
index d7ddd41..0b8b3d0 100644
--- a/eo/src/es/eig.cpp
+++ b/eo/src/es/eig.cpp
@@ -168,7 +168,7 @@ QLalgo( int N, valarray<double>& diag, square_matrix& mq,
       }
       if (j != i)
       {
-        if (++iter > maxIter) return maxIter-1;
+        if (++iter > maxIter) return maxIter;
         diff = (diag[i+1]-diag[i])/neben[i]/2.0;
         if (diff >= 0)
           diff = diag[j] - diag[i] +
-- 
2.43.0


From c0462a997de1e75d5f8c27ed0e5cc07b9619865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:39 +0000
Subject: [PATCH 157/160] fix: scale mutation steps to the range of the bounds
 once

the bounded uniform and normal mutations multiplied their step length by itself when scaling it to the range of the bounds.
---
 eo/src/es/eoNormalMutation.h | 2 +-
 eo/src/es/eoRealOp.h         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/eo/src/es/eoNormalMutation.h b/eo/src/es/eoNormalMutation.h
index 9afb1b7..3e918fb 100644
--- a/eo/src/es/eoNormalMutation.h
+++ b/eo/src/es/eoNormalMutation.h
@@ -75,7 +75,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          sigma[i] *= _sigma*bounds.range(i);
+          sigma[i] *= bounds.range(i);
   }
 
   /** The class name */
diff --git a/eo/src/es/eoRealOp.h b/eo/src/es/eoRealOp.h
index debc424..3d14536 100644
--- a/eo/src/es/eoRealOp.h
+++ b/eo/src/es/eoRealOp.h
@@ -73,7 +73,7 @@ template<class EOT> class eoUniformMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          epsilon[i] *= _epsilon*bounds.range(i);
+          epsilon[i] *= bounds.range(i);
   }
 
   /**
@@ -173,7 +173,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          epsilon[i] *= _epsilon*bounds.range(i);
+          epsilon[i] *= bounds.range(i);
   }
 
   /**
@@ -190,7 +190,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          epsilon[i] *= _epsilon[i]*bounds.range(i);
+          epsilon[i] *= bounds.range(i);
   }
 
   /// The class name.
-- 
2.43.0


From a57be769298913cecb7bf5754b3598385530eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:39 +0000
Subject: [PATCH 158/160] fix: use every rotation angle of correlated mutations

the correlated mutation of evolution strategies never rotated the first axis, leaving one angle per other axis unused, and none at all in dimension 2.
---
 eo/src/es/eoEsMutate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/es/eoEsMutate.h b/eo/src/es/eoEsMutate.h
index 1b2bd55..8028f96 100644
--- a/eo/src/es/eoEsMutate.h
+++ b/eo/src/es/eoEsMutate.h
@@ -189,9 +189,9 @@ public:
             unsigned nq = _eo.correlations.size() - 1;
             for (k = 0; k < _eo.size()-1; k++)
             {
-                n1 = _eo.size() - k - 1;
+                n1 = _eo.size() - k - 2;
                 n2 = _eo.size() - 1;
-                for (i = 0; i < k; i++)
+                for (i = 0; i <= k; i++)
                 {
                     d1 = VarStp[n1];
                     d2 = VarStp[n2];
-- 
2.43.0


From 4c122cf6e90b5da7d959f1e23c60dce961e89a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:39 +0000
Subject: [PATCH 159/160] fix: keep the rotation when wrapping its angle

a rotation angle of the correlated mutation leaving its range was moved by half a turn, which is another rotation.
---
 eo/src/es/eoEsMutate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/eoEsMutate.h b/eo/src/es/eoEsMutate.h
index 8028f96..c11a456 100644
--- a/eo/src/es/eoEsMutate.h
+++ b/eo/src/es/eoEsMutate.h
@@ -177,7 +177,7 @@ public:
                 _eo.correlations[i] += TauBeta * rng.normal();
                 if ( fabs(_eo.correlations[i]) > M_PI )
                 {
-                    _eo.correlations[i] -= M_PI * (int) (_eo.correlations[i]/M_PI) ;
+                    _eo.correlations[i] -= 2 * M_PI * floor((_eo.correlations[i] + M_PI) / (2 * M_PI)) ;
                 }
             }
             // Perform correlated mutations.
-- 
2.43.0


From 561d25aaa3552a7d3cab403dd6537e32ac59e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:09 +0000
Subject: [PATCH 160/160] fix: count a clause once for a variable it repeats

a clause of a file that repeats a variable was counted once per occurrence by the incremental evaluation, so its value differed from the full one.
---
 problems/eval/maxSATeval.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/problems/eval/maxSATeval.h b/problems/eval/maxSATeval.h
index 985b7d7..e17b8d9 100644
--- a/problems/eval/maxSATeval.h
+++ b/problems/eval/maxSATeval.h
@@ -155,9 +155,8 @@ public:
 	  if (number < 0)
 	    number = -number;
 
-	  if (number < 0)
-	    variables[-number].push_back(-i);
-	  else
+	  // a clause counts once for a variable, even if it appears several times
+	  if (variables[number].empty() || variables[number].back() != (int) i)
 	    variables[number].push_back(i);
 	}
       } while (number != 0);    
-- 
2.43.0

