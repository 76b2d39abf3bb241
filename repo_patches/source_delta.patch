From 01998279166cce28cda47c9e9ba4c9d30711996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:06 +0000
Subject: [PATCH 01/45] fix: refuse torn state records instead of continuing
 from partially read data

---
 CPPQEDutils/Trajectory.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index bc60033..63ed375 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -398,8 +398,10 @@ void readViaSStream(Trajectory& traj, std::shared_ptr<std::istream> ifs)
   istringstream iss(ios_base::binary);
   {
     string buffer;
-    streamsize n; *ifs>>n; buffer.resize(n);
-    ifs->read(&buffer[0],n);
+    streamsize n;
+    if (!(*ifs>>n)) throw runtime_error("Incomplete or corrupt state record in cppqedutils::trajectory::readViaSStream");
+    buffer.resize(n);
+    if (!ifs->read(&buffer[0],n)) throw runtime_error("Incomplete state record in cppqedutils::trajectory::readViaSStream");
     iss.str(buffer);
   }
   iarchive stateArchive(iss);
-- 
2.43.0


From 8836ab4a2acf5967cc5416009efb050cf30ed201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:47 +0000
Subject: [PATCH 02/45] fix: step in the requested direction also when the
 previous step was backward or there was none

---
 CPPQEDutils/ODE.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDutils/ODE.h b/CPPQEDutils/ODE.h
index 7583935..6c228b1 100644
--- a/CPPQEDutils/ODE.h
+++ b/CPPQEDutils/ODE.h
@@ -238,7 +238,7 @@ void cppqedutils::ode_engine::Base<ControlledErrorStepper,Logger>::step(Time del
   
   Time nextDtTry=( fabs(deltaT)<fabs(dtTry_/nextDtTryCorrectionFactor) ? dtTry_ : 0. );
   
-  if (sign(deltaT)!=sign(dtTry_)) dtTry_=-dtDid_; // Stepping backward
+  if (sign(deltaT)!=sign(dtTry_)) dtTry_=std::copysign(dtDid_ ? dtDid_ : dtTry_,deltaT); // Stepping backward
   
   if (fabs(dtTry_)>fabs(deltaT)) dtTry_=deltaT;
   
-- 
2.43.0


From e77771a76510cd0e01f36f334cae445593e0e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:16 +0000
Subject: [PATCH 03/45] fix: unary plus and minus of state vectors and density
 operators (could not be instantiated)

---
 CPPQEDcore/quantumdata/ArrayBase.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumdata/ArrayBase.h b/CPPQEDcore/quantumdata/ArrayBase.h
index e608d79..4091471 100644
--- a/CPPQEDcore/quantumdata/ArrayBase.h
+++ b/CPPQEDcore/quantumdata/ArrayBase.h
@@ -57,8 +57,8 @@ public:
   Derived& operator+=(const ArrayBase& arrayBase) {arrayLow_+=arrayBase.arrayLow_; return static_cast<Derived&>(*this);}
   Derived& operator-=(const ArrayBase& arrayBase) {arrayLow_-=arrayBase.arrayLow_; return static_cast<Derived&>(*this);}
 
-  Derived operator-() const {Derived res(this->getDimensions(),false); res.getArray()=-this->getArray(); return res;} ///< involves a deep-copy
-  Derived operator+() const {return *this;} ///< simply deep copy
+  Derived operator-() const {Derived res(static_cast<const Derived&>(*this)); res*=-1.; return res;} ///< involves a deep-copy
+  Derived operator+() const {return static_cast<const Derived&>(*this);} ///< simply deep copy
   //@}
 
   /// \name Naive vector-space operations allowing also for mixed-mode arithmetics
-- 
2.43.0


From 1c8c77f81df5755cc90a7fd74b8f6eb5bc0c4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:16 +0000
Subject: [PATCH 04/45] fix: the trace of a state vector's projector is its
 squared norm

---
 CPPQEDcore/quantumdata/StateVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/StateVector.h b/CPPQEDcore/quantumdata/StateVector.h
index f637880..57640f3 100644
--- a/CPPQEDcore/quantumdata/StateVector.h
+++ b/CPPQEDcore/quantumdata/StateVector.h
@@ -191,7 +191,7 @@ public:
 private:
   const dcomp index(const Idx& i, const Idx& j) const override {return getArray()(i)*conj(getArray()(j));} ///< This function implements the LazyDensityOperator interface in a dyadic-product way.
   
-  double trace_v() const override {return norm();} ///< A straightforward implementation of a LazyDensityOperator virtual
+  double trace_v() const override {return cppqedutils::sqr(norm());} ///< A straightforward implementation of a LazyDensityOperator virtual
   
 };
 
-- 
2.43.0


From d4e6a9b27e474b72d1a253ae5d359dddc9bb0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:16 +0000
Subject: [PATCH 05/45] fix: densityOperatorize for more than one subsystem
 (could not be instantiated)

---
 CPPQEDcore/quantumdata/DensityOperator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 1368404..52aec1f 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -239,7 +239,7 @@ template<int RANK>
 DensityOperator<RANK>
 densityOperatorize(const LazyDensityOperator<RANK>& matrix)
 {
-  DensityOperator<RANK> res(matrix.getDimension());
+  DensityOperator<RANK> res(matrix.getDimensions());
   
   typedef cppqedutils::MultiIndexIterator<RANK> Iterator;
   const Iterator etalon(matrix.getDimensions()-1,cppqedutils::mii::begin);
-- 
2.43.0


From 1645fd4dde2eb6045c3364f5d1fe318e934b7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:18 +0000
Subject: [PATCH 06/45] fix: the trace of density-operator slices of more than
 one subsystem

---
 CPPQEDcore/quantumdata/DensityOperator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 52aec1f..3d0c259 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -161,9 +161,11 @@ public:
   //@{
   double norm() const ///< returns the trace norm
   {
-    using blitz::tensor::i;
-    const linalg::CMatrix m(matrixView());
-    return real(sum(m(i,i)));
+    // element-wise, since the object may be a (non-contiguous) slice of another one, which has no matrixView
+    const cppqedutils::MultiIndexIterator<RANK> etalon(this->getDimensions()-1,cppqedutils::mii::begin);
+    double res=0;
+    for (auto i(etalon); i!=etalon.getEnd(); ++i) res+=real(indexWithTiny(*i,*i));
+    return res;
   }
 
   double renorm() ///< ” and also renormalises
-- 
2.43.0


From 6ec18329012926737857d4e5ca1ea9177268b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:48 +0000
Subject: [PATCH 07/45] fix: phases of direct products of diagonal and
 off-diagonal operators in interaction picture

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 38 +++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index bf70e3f..9bd0c9f 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -55,6 +55,42 @@ directDiagonals(const typename Tridiagonal<RANK1>::Diagonals& ds1,
 } // NEEDS_WORK this is now runtime, but (a smaller) part of it could be done compile-time. Ugh. Ouch.
 
 
+// The frequencies belonging to the given diagonal of the operator. An operator (or subsystem) that has none stored does not rotate, so that zeros are returned
+template<int RANK>
+typename Tridiagonal<RANK>::Diagonal
+freqsOrZeros(const Tridiagonal<RANK>& tridiag, size_t ind)
+{
+  if (tridiag.getFreqs()(ind).size()) return tridiag.getFreqs()(ind);
+
+  typename Tridiagonal<RANK>::Dimensions shape(tridiag.getDimensions());
+  for (int r=RANK-1; r>=0; r--, ind/=3) if (ind%3) {
+    if (!tridiag.getDifferences()(r)) return typename Tridiagonal<RANK>::Diagonal(); // there is no such diagonal
+    shape(r)-=tridiag.getDifferences()(r);
+  }
+
+  typename Tridiagonal<RANK>::Diagonal res(shape);
+  res=0.;
+  return res;
+}
+
+
+template<int RANK1, int RANK2>
+const typename Tridiagonal<RANK1+RANK2>::Diagonals
+directFreqs(const Tridiagonal<RANK1>& t1, const Tridiagonal<RANK2>& t2)
+{
+  using namespace blitzplusplus;
+
+  typename Tridiagonal<RANK1+RANK2>::Diagonals res;
+  const size_t length=t2.getFreqs().numElements();
+
+  for (size_t i=0; i<t1.getFreqs().numElements(); ++i) for (size_t j=0; j<length; ++j)
+    if (t1.getFreqs()(i).size() || t2.getFreqs()(j).size())
+      res(i*length+j).reference(doDirect<dodirect::addition,RANK1,RANK2>(freqsOrZeros(t1,i),freqsOrZeros(t2,j)));
+
+  return res;
+}
+
+
 } // details
 
 
@@ -64,7 +100,7 @@ Tridiagonal<RANK>::Tridiagonal(const Tridiagonal<RANK2>& t1, const Tridiagonal<R
     diagonals_(blitzplusplus::ShallowCopy(),details::directDiagonals<true,RANK2,RANK-RANK2>(t1.get(),t2.get())),
     differences_(blitzplusplus::concatenateTinies(t1.getDifferences(),t2.getDifferences())),
     tCurrent_(t1.getTime()),
-    freqs_(blitzplusplus::ShallowCopy(),details::directDiagonals<false,RANK2,RANK-RANK2>(t1.getFreqs(),t2.getFreqs()))
+    freqs_(blitzplusplus::ShallowCopy(),details::directFreqs<RANK2,RANK-RANK2>(t1,t2))
 {
   if (t1.getTime()!=t2.getTime()) throw std::runtime_error("Tridiagonal time mismatch");
 }
-- 
2.43.0


From 793f95f800ef1d9f97ca957f2e7d13aab053317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:49 +0000
Subject: [PATCH 08/45] fix: refuse to add Tridiagonals of different dimensions
 or frequencies

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index 9bd0c9f..e2c294a 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -155,6 +155,8 @@ template<int RANK>
 Tridiagonal<RANK>&
 Tridiagonal<RANK>::operator+=(const Tridiagonal& tridiag)
 {
+  if (static_cast<const Base&>(tridiag)!=*this) throw std::invalid_argument("Tridiagonal dimension mismatch in operator+=");
+
   boost::for_each(tridiag.differences_,differences_,[](size_t otherDifference, size_t& difference) {
     if (!difference) difference=otherDifference;
     else if (otherDifference && difference!=otherDifference) throw std::invalid_argument("Tridiagonal structure mismatch is binOp1");
@@ -172,7 +174,7 @@ Tridiagonal<RANK>::operator+=(const Tridiagonal& tridiag)
   
   boost::for_each(tridiag.freqs_,freqs_,[](const typename Tridiagonal<RANK>::Diagonal& from, typename Tridiagonal<RANK>::Diagonal& to) {
     if (from.size()) {
-      if (to.size() && all(to!=from)) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
+      if (to.size() && any(to!=from)) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
       else {
         to.resize(from.shape());
         to=from;
-- 
2.43.0


From 9531ef49078f4cb2c90145c5722a7c9da63d80ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:49 +0000
Subject: [PATCH 09/45] fix: direct product of two Sigmas (could not be
 instantiated)

---
 CPPQEDcore/quantumoperator/Sigma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Sigma.h b/CPPQEDcore/quantumoperator/Sigma.h
index 02ba774..36825c8 100644
--- a/CPPQEDcore/quantumoperator/Sigma.h
+++ b/CPPQEDcore/quantumoperator/Sigma.h
@@ -131,7 +131,7 @@ template<int L1, int R1, int L2, int R2>
 const DirectProduct<L1,R1,Sigma<L2,R2>,true>
 operator*(const Sigma<L1,R1>&, const Sigma<L2,R2>& sigma)
 {
-  return DirectProduct<L1,R2,Sigma<L2,R2>,true>(sigma);
+  return DirectProduct<L1,R1,Sigma<L2,R2>,true>(sigma);
 }
 
 
-- 
2.43.0


From da19e451e6176626fa7c9ef2f72e60848e7881a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:26 +0000
Subject: [PATCH 10/45] fix: interaction jump channels of binary systems whose
 second free has no jumps

---
 CPPQEDcore/composites/BinarySystem.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CPPQEDcore/composites/BinarySystem.cc b/CPPQEDcore/composites/BinarySystem.cc
index f4a2143..743037b 100644
--- a/CPPQEDcore/composites/BinarySystem.cc
+++ b/CPPQEDcore/composites/BinarySystem.cc
@@ -226,8 +226,8 @@ void binary::Liouvillean::actWithJ_v(double t, StateVectorLow& psi, size_t i) co
     return;
   }
 
-  i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  i-=n; n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     for(auto& psiS : fullRange<V1>(psi)) li1->actWithJ(t,psiS,i);
     return;
   }
@@ -260,8 +260,8 @@ void binary::Liouvillean::actWithSuperoperator_v(double t, const DensityOperator
     return;
   }
 
-  i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  i-=n; n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     boost::range::for_each(fullRange<V1>(rho),fullRange<V1>(drhodt),lambda(li1));
     return;
   }
-- 
2.43.0


From cd1da11630b545d82395eefec1656503d401a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:15 +0000
Subject: [PATCH 11/45] fix: the highest frequency of a composite includes its
 interactions

---
 CPPQEDcore/composites/Composite.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/composites/Composite.tcc b/CPPQEDcore/composites/Composite.tcc
index 1c2c1e9..898c22e 100644
--- a/CPPQEDcore/composites/Composite.tcc
+++ b/CPPQEDcore/composites/Composite.tcc
@@ -117,13 +117,15 @@ std::ostream& composite::Base<VA>::streamParameters_v(std::ostream& os) const
 template<typename VA>
 double composite::Base<VA>::highestFrequency_v() const
 {
-  return boost::max_element(
+  const double freesMax=boost::max_element(
     frees_,
     [](const SubSystemFree& ssf1, const SubSystemFree& ssf2) {
       return ssf1.get()->highestFrequency() < ssf2.get()->highestFrequency();
     })->get()->highestFrequency();
   
-  // NEEDS_WORK add the interactions here
+  return boost::fusion::fold(acts_,freesMax,[](double s, const auto& act) -> double {
+    return std::max(s,act.get()->highestFrequency());
+  });
 }
 
 
-- 
2.43.0


From 042b0407b7efc7e8a44541020836524c0b84fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:14 +0000
Subject: [PATCH 12/45] fix: undoing an MCWF step also restores the instant
 where the pictures coincide

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 1646809..6d047d5 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -348,7 +348,7 @@ template<int RANK, typename ODE_Engine, typename RandomEngine>
 void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(double Dt, std::ostream& logStream)
 {
   const StateVector psiCache(psi_); // deep copy
-  double tCache=t_, dtDidCache=getDtDid();
+  double tCache=t_, t0Cache=t0_, dtDidCache=getDtDid();
 
   coherentTimeDevelopment(Dt,logStream);
 
@@ -358,7 +358,7 @@ void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(doub
     IndexSVL_tuples specialRates=calculateSpecialRates(&rates);
 
     while (manageTimeStep(rates,tCache,dtDidCache,logStream)) {
-      psi_=psiCache;
+      psi_=psiCache; t0_=t0Cache;
       coherentTimeDevelopment(Dt,logStream); // the next try
       rates=li->rates(t_,psi_);
       specialRates=calculateSpecialRates(&rates);
-- 
2.43.0


From caca307244bc63ede98711519e9b199d8593836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:14 +0000
Subject: [PATCH 13/45] fix: an undone MCWF step is always retried shorter

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 6d047d5..6aae4a4 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -302,7 +302,7 @@ manageTimeStep(const structure::Rates& rates, double tCache, double dtDidCache,
 
   // Assumption: overshootTolerance_>=1 (equality is the limiting case of no tolerance)
   if (totalRate*dtDid>overshootTolerance_*dpLimit_) {
-    t_=tCache; ode_.setDtDid(dtDidCache); ode_.setDtTry(liouvilleanSuggestedDtTry);
+    t_=tCache; ode_.setDtDid(dtDidCache); ode_.setDtTry(std::min(liouvilleanSuggestedDtTry,.9*dtDid)); // the retry is always shorter (with overshootTolerance_~1, the suggestion might not be)
     logger_.stepBack(logStream,totalRate*dtDid,dtDid,ode_.getDtTry(),t_,logControl);
     return true; // Step-back required.
   }
-- 
2.43.0


From e850c62deea6b5c4029a33cfd66c6ac354345862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:39 +0000
Subject: [PATCH 14/45] fix: FreeExact starts from the identity instead of
 uninitialised memory when first used with t=t0

---
 CPPQEDcore/structure/FreeExact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/structure/FreeExact.h b/CPPQEDcore/structure/FreeExact.h
index b6dc2bb..e81d766 100644
--- a/CPPQEDcore/structure/FreeExact.h
+++ b/CPPQEDcore/structure/FreeExact.h
@@ -23,7 +23,7 @@ public:
   typedef typename ExactTimeDependenceDispatched<1,IS_TWO_TIME>::Time Time;
 
 protected:
-  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {}
+  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {diagonal_=1.;} // identity, since the propagator cached for t=t0 is never updated
   
   Diagonal& getDiagonal() const {return diagonal_;}
 
-- 
2.43.0


From 8442132eaac22c38da34fed98b5675a64e213e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:59 +0000
Subject: [PATCH 15/45] fix: Kerr nonlinearity takes part identically in all
 pictures of Mode (propagator, frequencies, zero detuning)

---
 CPPQEDelements/frees/BichromaticMode.h | 2 +-
 CPPQEDelements/frees/Mode.cc           | 8 ++++----
 CPPQEDelements/frees/Mode.tcc          | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/CPPQEDelements/frees/BichromaticMode.h b/CPPQEDelements/frees/BichromaticMode.h
index cde6fcb..ecce0c0 100644
--- a/CPPQEDelements/frees/BichromaticMode.h
+++ b/CPPQEDelements/frees/BichromaticMode.h
@@ -36,7 +36,7 @@ public:
   {
     mode::Hamiltonian<true>::getH_OverIs().push_back(
                                                      furnishWithFreqs(mode::pumping(p.etaOther,getDimension()),
-                                                                      mode::mainDiagonal(zI_Other,0,getDimension()))
+                                                                      mode::mainDiagonal(zI_Other,-p.omegaKerr,getDimension()))
                                                      );
     getParsStream()<<"Bichromatic pumping."; mode::isFiniteTempStream<TEMPERATURE>(getParsStream(),p.nTh);
   }
diff --git a/CPPQEDelements/frees/Mode.cc b/CPPQEDelements/frees/Mode.cc
index 1438922..9f1bbf6 100644
--- a/CPPQEDelements/frees/Mode.cc
+++ b/CPPQEDelements/frees/Mode.cc
@@ -41,7 +41,7 @@ Exact::Exact(dcomp zI, double omegaKerr, size_t dim)
 
 void Exact::updateU(Time t) const
 {
-  getDiagonal()=exp(-zI_*(double(t)*blitz::tensor::i));
+  getDiagonal()=exp(-double(t)*mainDiagonal(zI_,-omegaKerr_,getDiagonal().size()));
 }
 
 
@@ -76,7 +76,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 // Here we use runtime dispatching because runtime dispatching will anyway happen at the latest in some maker function.
 {
   bool isPumped=isNonZero(eta);
-  if (isNonZero(z)) {
+  if (isNonZero(z) || omegaKerr) {
     Tridiagonal res(mainDiagonal(-z,omegaKerr,dim));
     if (isPumped) return res+pumping(eta,dim);
     else return res;
@@ -94,7 +94,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 
 template<> template<>
 Hamiltonian<true >::Hamiltonian(dcomp zSch, dcomp zI, dcomp eta, double omegaKerr, double omegaKerrAlter, size_t dim)
-  : Base(furnishWithFreqs(hOverI(zSch,eta,omegaKerr,dim),mainDiagonal(zI,omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
+  : Base(furnishWithFreqs(hOverI(zSch,eta,0.,dim),mainDiagonal(zI,-omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
 {
   FILLKERR
 }
@@ -289,7 +289,7 @@ const Tridiagonal aop(Ptr mode)
 {
   size_t dim=mode->getDimension();
   Tridiagonal res(aop(dim));
-  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),exact->get_omegaKerr(),dim));
+  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),-exact->get_omegaKerr(),dim));
   return res;
 }
 
diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index 981933d..ed18aae 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -95,7 +95,7 @@ void AveragedMonitorCutoff<Base>::process_v(Averages& averages) const
 
 template<typename AveragingType> template<typename... AveragingConstructorParameters>
 Mode<AveragingType>::Mode(const mode::Pars& p, AveragingConstructorParameters&&... a)
-  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr,p.cutoff),
+  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_delta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {}
@@ -134,7 +134,7 @@ PumpedModeSch<AveragingType>::PumpedModeSch(const mode::ParsPumped& p, Averaging
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 LossyMode<TEMPERATURE,AveragingType>::LossyMode(const mode::ParsLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE>(p.kappa,p.nTh),
-    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr,p.cutoff),
+    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_kappadelta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From 9114283cafcfa4f1bbaa16af4c4f51f5fa5d284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:30 +0000
Subject: [PATCH 16/45] fix: HomodynedMode has the same averaged dynamics as
 LossyMode whatever the homodyne amplitude

---
 CPPQEDelements/frees/HomodynedMode.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/HomodynedMode.cc b/CPPQEDelements/frees/HomodynedMode.cc
index f40cf59..dc791cf 100644
--- a/CPPQEDelements/frees/HomodynedMode.cc
+++ b/CPPQEDelements/frees/HomodynedMode.cc
@@ -7,7 +7,8 @@ mode::HomodynedBase::HomodynedBase(const ParsLossy& p,
     structure::ElementLiouvillean<1,2>("HomodynedMode",{"homodyned loss","homodyned absorption"}),
     homodyneAmplitude_(homodyneAmplitude), kappa_(p.kappa), nTh_(p.nTh)
 {
-  getH_OverIs().front()-=sqrt(p.kappa/2.)*(sqrt(p.nTh)+sqrt(p.nTh+1))*tridiagPlusHC(conj(homodyneAmplitude_)*aop(p.cutoff));
+  // the displacement of the jump operators must be compensated in the Hamiltonian for the Liouvillean to remain the same
+  getH_OverIs().push_back(-sqrt(2.*p.kappa*(p.nTh+1))*conj(homodyneAmplitude_)*aop(p.cutoff)-sqrt(2.*p.kappa*p.nTh)*homodyneAmplitude_*aop(p.cutoff).dagger());
 }
 
 
-- 
2.43.0


From fa1b1dd2cd78eba1464047bc82366ab4ca5185d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:30 +0000
Subject: [PATCH 17/45] fix: phase-diffusion superoperators use the coefficient
 of their own level

---
 CPPQEDcore/structure/ElementLiouvillean.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/CPPQEDcore/structure/ElementLiouvillean.h b/CPPQEDcore/structure/ElementLiouvillean.h
index f09e3e9..7227dd4 100644
--- a/CPPQEDcore/structure/ElementLiouvillean.h
+++ b/CPPQEDcore/structure/ElementLiouvillean.h
@@ -366,14 +366,10 @@ protected:
   {
     if (rho.extent(0)!=dim_ || rho.extent(1)!=dim_) throw ElementLiouvilleanDiffusiveDimensionalityMismatchException("In actWithSuperoperator_v");
     if (lindbladNo<base_nAvr_) Base::actWithSuperoperator_v(t,rho,drhodt,lindbladNo);
-    else if(lindbladNo==base_nAvr_) { // with this single case we cover the action of all the diffusive Lindblads
-      for (int m=0; m<dim_; ++m) {
-        drhodt(m,m)+=2*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,m);
-        for (int n=m+1; n<dim_; ++n) {
-          drhodt(m,n)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,n);
-          drhodt(n,m)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(n,m);
-        }
-      }
+    else {
+      const int level=lindbladNo-base_nAvr_;
+      for (int m=0; m<dim_; ++m) for (int n=0; n<dim_; ++n)
+        drhodt(m,n)+=2*diffusionCoeffs_[level]*((m==level)!=(n==level) ? -1. : 1.)*rho(m,n);
     }
   }
 
-- 
2.43.0


From 1f14c76685b7ae4af467fff9fcf77e5ace6ae923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:03 +0000
Subject: [PATCH 18/45] fix: an empty Tridiagonal is accepted as zero in sums,
 whatever the dimension

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index e2c294a..970f8f6 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -155,7 +155,10 @@ template<int RANK>
 Tridiagonal<RANK>&
 Tridiagonal<RANK>::operator+=(const Tridiagonal& tridiag)
 {
-  if (static_cast<const Base&>(tridiag)!=*this) throw std::invalid_argument("Tridiagonal dimension mismatch in operator+=");
+  // An empty (default-constructed) Tridiagonal stands for zero, it fits any dimension
+  if (!tridiag.getTotalDimension()) return *this;
+  if (!this->getTotalDimension()) this->setDimensions(tridiag.getDimensions());
+  else if (static_cast<const Base&>(tridiag)!=*this) throw std::invalid_argument("Tridiagonal dimension mismatch in operator+=");
 
   boost::for_each(tridiag.differences_,differences_,[](size_t otherDifference, size_t& difference) {
     if (!difference) difference=otherDifference;
-- 
2.43.0


From edbfb921dc029bdcfffe98e3ca6145c331b15ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:41 +0000
Subject: [PATCH 19/45] fix: adding a Tridiagonal to itself keeps its
 frequencies

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index 970f8f6..b5dbca9 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -177,11 +177,11 @@ Tridiagonal<RANK>::operator+=(const Tridiagonal& tridiag)
   
   boost::for_each(tridiag.freqs_,freqs_,[](const typename Tridiagonal<RANK>::Diagonal& from, typename Tridiagonal<RANK>::Diagonal& to) {
     if (from.size()) {
-      if (to.size() && any(to!=from)) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
-      else {
+      if (!to.size()) {
         to.resize(from.shape());
         to=from;
       }
+      else if (any(to!=from)) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
     }
   });
 
-- 
2.43.0


From 06942411d047db5ab75e92ac21432b150efd0839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:41 +0000
Subject: [PATCH 20/45] fix: default oscillator state of a pumped particle has
 the characteristic length of the pump potential

---
 CPPQEDelements/frees/Particle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Particle.cc b/CPPQEDelements/frees/Particle.cc
index 3e9e2d3..cd8af16 100644
--- a/CPPQEDelements/frees/Particle.cc
+++ b/CPPQEDelements/frees/Particle.cc
@@ -434,7 +434,7 @@ auto particle::hoState(const ParsPumped& p, bool kFlag) -> StateVector
 {
   if (p.init.getSig()) return hoState(static_cast<const Pars&>(p),kFlag);
   else                 return hoState(p.hoInitn,
-                                      coherent(p),
+                                      InitialCondition(p.init.getX0(),p.init.getK0(),sqrt(2)*coherent(p).getSig()), // here, the characteristic length is needed
                                       Spatial(p.fin),
                                       kFlag);
 }
-- 
2.43.0


From 86eb0fb80729b74b7503238a52e1f72ec0b2a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:08 +0000
Subject: [PATCH 21/45] fix: MLJC keeps its own copy of the couplings instead
 of a view of the parameters

---
 CPPQEDelements/interactions/MLJC.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/interactions/MLJC.h b/CPPQEDelements/interactions/MLJC.h
index cb76e01..7995472 100644
--- a/CPPQEDelements/interactions/MLJC.h
+++ b/CPPQEDelements/interactions/MLJC.h
@@ -12,6 +12,7 @@
 #include "Sigma.h"
 
 #include <boost/fusion/algorithm/transformation/transform.hpp>
+#include <boost/fusion/container/vector/convert.hpp>
 
 
 /// Class representing an elementary coupling term (a \f$g_{ij}\f$ \ref multilevelactualHamiltonian "here") with a compile-time pair \f$i,j\f$ and a runtime complex value
@@ -99,7 +100,7 @@ private:
 
   static auto modeDynamicsMaker(const VC& gs, MultiLevelPtr ml, mode::Ptr mode)
   {
-    return boost::fusion::transform(gs,CouplingToModeDynamics(ml,mode));
+    return boost::fusion::as_vector(boost::fusion::transform(gs,CouplingToModeDynamics(ml,mode))); // not a view, which would refer to the parameters later on
     /*Here, the generic lambda doesn’t seem to be a good enough solution, since we need the result of fusion::transform as well (cf. below)
      * [=] (const auto& coupling) -> ModeDynamics<std::decay_t<decltype(coupling)>::first,std::decay_t<decltype(coupling)>::second> {
       using C=std::decay_t<decltype(coupling)>;
-- 
2.43.0


From d8d7b611b162cab1fd9592a86c047984ac31c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:08 +0000
Subject: [PATCH 22/45] fix: running-wave pump scatters into the cavity with
 its own phase, not its conjugate (ParticleOrthogonalToCavity)

---
 CPPQEDelements/interactions/ParticleCavity.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/interactions/ParticleCavity.cc b/CPPQEDelements/interactions/ParticleCavity.cc
index d8ec820..d6337b5 100644
--- a/CPPQEDelements/interactions/ParticleCavity.cc
+++ b/CPPQEDelements/interactions/ParticleCavity.cc
@@ -75,7 +75,7 @@ ParticleOrthogonalToCavity::ParticleOrthogonalToCavity(mode::Ptr mode, particle:
 
 ParticleOrthogonalToCavity::ParticleOrthogonalToCavity(mode::Ptr mode, particle::PtrPumped particle, double uNot, double etaeff)
   : particlecavity::Base(mode,particle,uNot,etaeff),
-    TridiagonalHamiltonian(interfericOneModeFN(mode,particle,etaeff,particle->getMF()))
+    TridiagonalHamiltonian(etaeff*tridiagPlusHC_overI(mode::aop(mode).dagger()*mfNKX(particle,particle->getMF())))
 {
   getParsStream()<<"Particle moving orthogonal to cavity\n"; /* photons/(particle number)^2="
                                                                   <<uNot*particle->getV_Class()/sqrAbs(mode->getComplexFreqs(""))<<std::endl; */
-- 
2.43.0


From c45e4664fe948e8cb555abe01cd8299ff90900ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:08 +0000
Subject: [PATCH 23/45] fix: the phase phi of ParticleTwoModes acts the same
 way for equal and different wave numbers

---
 CPPQEDelements/interactions/ParticleTwoModes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/interactions/ParticleTwoModes.cc b/CPPQEDelements/interactions/ParticleTwoModes.cc
index 3c9a6c5..8515489 100644
--- a/CPPQEDelements/interactions/ParticleTwoModes.cc
+++ b/CPPQEDelements/interactions/ParticleTwoModes.cc
@@ -35,7 +35,7 @@ ParticleTwoModes::ParticleTwoModes(mode::Ptr mode0, mode::Ptr mode1, particle::P
                                    double phi)
   : structure::Interaction<3>({mode0,mode1,part},
                               {RF{"Unot0",uNot0,sqrt(mode0->getDimension())},RF{"Unot1",uNot1,sqrt(mode1->getDimension())}}),
-                              firstH_(factor(uNot0,uNot1,phi)*mode::aop(mode0)*mode::aop(mode1).dagger()*mfNKX(part,mf0)/1i), firstHT_(-firstH_.dagger()),
+                              firstH_(conj(factor(uNot0,uNot1,phi))*mode::aop(mode0)*mode::aop(mode1).dagger()*mfNKX(part,mf0)/1i), firstHT_(-firstH_.dagger()),
     secondH_(mfNKX(part,mf1).dagger()), secondHT_(secondH_.dagger()),
     isSpecialH_(abs(get<1>(mf0))==abs(get<1>(mf1))),
     specialH_(isSpecialH_ ? Tridiagonals{quantumoperator::tridiagPlusHC_overI( factor(uNot0,uNot1,phi)*mode::aop(mode0).dagger()*mode::aop(mode1)*mfComposition(part,mf0,mf1) )}: Tridiagonals{})
-- 
2.43.0


From 10268c7e208ad2382efd4e3674443ccbbb2023d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:08 +0000
Subject: [PATCH 24/45] fix: particle-mode couplings of different wave numbers
 are Hermitian also at the momentum cutoff

---
 CPPQEDelements/interactions/ParticleCavity.cc   | 6 +++---
 CPPQEDelements/interactions/ParticleTwoModes.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CPPQEDelements/interactions/ParticleCavity.cc b/CPPQEDelements/interactions/ParticleCavity.cc
index d6337b5..1221385 100644
--- a/CPPQEDelements/interactions/ParticleCavity.cc
+++ b/CPPQEDelements/interactions/ParticleCavity.cc
@@ -133,8 +133,8 @@ void ParticleAlongCavity::addContribution_v(double t, const quantumdata::StateVe
     boost::for_each(fullRange<V1>(dpsidtTemp),fullRange<V1>(dpsidt),[&](const auto& p1, auto& p2){secondH_ .apply(p1,p2);});
   }
   {
-    dpsidtTemp=0;
-    apply(psi,dpsidtTemp,firstHT_);
-    boost::for_each(fullRange<V1>(dpsidtTemp),fullRange<V1>(dpsidt),[&](const auto& p1, auto& p2){secondHT_.apply(p1,p2);});
+    dpsidtTemp=0; // in reverse order, so that the result is the conjugate of the above also at the momentum cutoff, where the factors do not commute
+    boost::for_each(fullRange<V1>(psi),fullRange<V1>(dpsidtTemp),[&](const auto& p1, auto& p2){secondHT_.apply(p1,p2);});
+    apply(dpsidtTemp,dpsidt,firstHT_);
   }
 }
diff --git a/CPPQEDelements/interactions/ParticleTwoModes.cc b/CPPQEDelements/interactions/ParticleTwoModes.cc
index 8515489..59e71ed 100644
--- a/CPPQEDelements/interactions/ParticleTwoModes.cc
+++ b/CPPQEDelements/interactions/ParticleTwoModes.cc
@@ -69,9 +69,9 @@ void ParticleTwoModes::addContribution_v(double t, const quantumdata::StateVecto
     boost::for_each(fullRange<V2>(dpsidtTemp),fullRange<V2>(dpsidt),[&](const auto& p1, auto& p2){secondH_ .apply(p1,p2);});
   }
   {
-    dpsidtTemp=0;
-    apply(psi,dpsidtTemp,firstHT_);
-    boost::for_each(fullRange<V2>(dpsidtTemp),fullRange<V2>(dpsidt),[&](const auto& p1, auto& p2){secondHT_.apply(p1,p2);});
+    dpsidtTemp=0; // in reverse order, so that the result is the conjugate of the above also at the momentum cutoff, where the factors do not commute
+    boost::for_each(fullRange<V2>(psi),fullRange<V2>(dpsidtTemp),[&](const auto& p1, auto& p2){secondHT_.apply(p1,p2);});
+    apply(dpsidtTemp,dpsidt,firstHT_);
   }
 
 }
-- 
2.43.0


From d38ba2b61bd8207c0d1e317ee1f8eae076abea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:43 +0000
Subject: [PATCH 25/45] fix: clones of AveragedMonitorCutoff keep monitoring
 the cutoff

do_clone was inherited from the underlying averaging class, so that the clone (as
made e.g. by averagingUtils::Collecting) printed the column as constant zero.
---
 CPPQEDelements/frees/Mode_.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CPPQEDelements/frees/Mode_.h b/CPPQEDelements/frees/Mode_.h
index 49cc45a..0575c06 100644
--- a/CPPQEDelements/frees/Mode_.h
+++ b/CPPQEDelements/frees/Mode_.h
@@ -293,6 +293,8 @@ private:
   
   void process_v(Averages&) const;
 
+  const typename Base::ClonedPtr do_clone() const {return new AveragedMonitorCutoff(*this);}
+
 };
 
 
-- 
2.43.0


From 6b2660a8ebb2dfb4393473abca827a5b7c715500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:43 +0000
Subject: [PATCH 26/45] fix: ReducedDensityOperatorNegativity keeps the
 density-matrix elements

Array::resize discards the contents, so that all the averages (and the negativity
calculated from them) were uninitialised.
---
 CPPQEDelements/utils/AveragingUtils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/utils/AveragingUtils.h b/CPPQEDelements/utils/AveragingUtils.h
index 08b09c6..ab0cd3b 100644
--- a/CPPQEDelements/utils/AveragingUtils.h
+++ b/CPPQEDelements/utils/AveragingUtils.h
@@ -110,7 +110,8 @@ private:
   const structure::Averages average_v(structure::NoTime t, const quantumdata::LazyDensityOperator<RANK>& matrix) const override
   {
     auto res(Base::average_v(t,matrix));
-    res.resize(res.size()+1);
+    res.resizeAndPreserve(res.size()+1);
+    res(res.ubound(0))=0; // placeholder of the negativity, which is not linear in the density operator, cf. process_v
     return res;
   }
 
-- 
2.43.0


From 3ceed054b53cfcc1bcfa5335d45eab89dd59d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:43 +0000
Subject: [PATCH 27/45] fix: clones of ReducedDensityOperatorNegativity keep
 the negativity

do_clone was inherited, the clone had one label more than averages.
---
 CPPQEDelements/utils/AveragingUtils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CPPQEDelements/utils/AveragingUtils.h b/CPPQEDelements/utils/AveragingUtils.h
index ab0cd3b..36a50d7 100644
--- a/CPPQEDelements/utils/AveragingUtils.h
+++ b/CPPQEDelements/utils/AveragingUtils.h
@@ -107,6 +107,8 @@ public:
     : Base(label,dim,true,boost::assign::list_of("negativity")) {}
 
 private:
+  structure::ClonableElementAveraged<RANK>*const do_clone() const override {return new ReducedDensityOperatorNegativity(*this);}
+
   const structure::Averages average_v(structure::NoTime t, const quantumdata::LazyDensityOperator<RANK>& matrix) const override
   {
     auto res(Base::average_v(t,matrix));
-- 
2.43.0


From b8fabed865e9862e87f1c3bd25ab02a230690ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:31 +0000
Subject: [PATCH 28/45] fix: the second column of spins is labelled as the
 variance it contains

---
 CPPQEDelements/doc/genericElements.markdown | 2 +-
 CPPQEDelements/frees/Spin.cc                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDelements/doc/genericElements.markdown b/CPPQEDelements/doc/genericElements.markdown
index 2993665..ec52611 100644
--- a/CPPQEDelements/doc/genericElements.markdown
+++ b/CPPQEDelements/doc/genericElements.markdown
@@ -50,7 +50,7 @@ Spin is characterized by a fixed magnitude \f$s,\f$ whereupon its quantum number
 
 | Class name | Hamiltonian | \f$U\f$ | Liouvillean | Displayed characteristics |
 | ---------- | ----------- | ------- | ----------- | ------------------------- |
-| Spin | n/a | \f$e^{-z\,t\,S_z}\f$ | n/a | \f$\avr{S_z},\;\avr{S_z^2},\;\real{S_+},\;\imag{S_+},\f$ … |
+| Spin | n/a | \f$e^{-z\,t\,S_z}\f$ | n/a | \f$\avr{S_z},\;\text{var}(S_z),\;\real{S_+},\;\imag{S_+},\f$ … |
 | LossySpin | n/a | ” | \f$2\gamma\,S_-\rho S_+\f$ | ” |
 | SpinSch | \f$-z\,\boldsymbol{\theta}\cdot\mathbf{S}\f$ | n/a | n/a | ” |
 
diff --git a/CPPQEDelements/frees/Spin.cc b/CPPQEDelements/frees/Spin.cc
index 7c48303..3ec627f 100644
--- a/CPPQEDelements/frees/Spin.cc
+++ b/CPPQEDelements/frees/Spin.cc
@@ -87,7 +87,7 @@ Pars::Pars(parameters::Table& p, const std::string& mod)
 
 SpinBase::SpinBase(size_t twoS, double theta, double phi, double omega, double gamma, size_t dim) 
   : Free(spin::decideDimension(twoS,dim),{RF{"omega",omega,1},RF{"gamma",gamma,1}}),
-    structure::ElementAveraged<1>("Spin",{"<sz>","<sz^2>","real(<s^+>)","imag(\")","|Psi(dim-1)|^2"}), twoS_(twoS), theta_(theta), phi_(phi), omega_(omega), gamma_(gamma), s_(twoS/2.)
+    structure::ElementAveraged<1>("Spin",{"<sz>","VAR(sz)","real(<s^+>)","imag(\")","|Psi(dim-1)|^2"}), twoS_(twoS), theta_(theta), phi_(phi), omega_(omega), gamma_(gamma), s_(twoS/2.)
 {
   getParsStream()<<"Spin "<<s_<<endl;
   getParsStream()<<"theta="<<theta_<<" phi="<<phi_<<endl;
-- 
2.43.0


From 0aa8948c2a45b722a1982b7b3a6015f19833dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:13 +0000
Subject: [PATCH 29/45] fix: evolve() from a density operator compiles again

The branch for ensembles of state-vector trajectories, which cannot be started from
a density operator, was instantiated in any case; now it is refused at run time, as
single trajectories are.
---
 CPPQEDcore/quantumtrajectory/Evolution_.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/Evolution_.h b/CPPQEDcore/quantumtrajectory/Evolution_.h
index d3504d1..4831a85 100644
--- a/CPPQEDcore/quantumtrajectory/Evolution_.h
+++ b/CPPQEDcore/quantumtrajectory/Evolution_.h
@@ -105,8 +105,7 @@ _(SV_OR_DO&& initial, ///<[in/out] pure state-vector initial condition
       throw std::runtime_error("Single MCWF trajectory from DensityOperator initial condition");
     }
     else if (pe.evol==evolution::ENSEMBLE) {
-      /// here, it’s intentional that `initial` is converted into an lvalue
-      return cppqedutils::run(mcwf::makeEnsemble<OE,RandomEngine,V>(sys,initial,pe,pe.ems),pe,doStreaming,returnStreamedArray);
+      throw std::runtime_error("Ensemble of MCWF trajectories from DensityOperator initial condition");
     }
     else {
       return ::evolveMaster<ODE_Engine,V>(std::forward<quantumdata::DensityOperator<RANK>>(initial),sys,pe,doStreaming,returnStreamedArray);
-- 
2.43.0


From 610f9bae3f3edb0ebc68db847d568e963fa0e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:03 +0000
Subject: [PATCH 30/45] fix: parameters of function scans carry the module
 suffix

---
 CPPQEDcore/quantumdata/DistributionFunctions.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DistributionFunctions.cc b/CPPQEDcore/quantumdata/DistributionFunctions.cc
index db804bd..1245a04 100644
--- a/CPPQEDcore/quantumdata/DistributionFunctions.cc
+++ b/CPPQEDcore/quantumdata/DistributionFunctions.cc
@@ -17,14 +17,14 @@ namespace quantumdata {
 
 
 ParsFunctionScan::ParsFunctionScan(parameters::Table& p, const std::string& mod)
-  : fLimitXUL(p.addTitle("Distribution function scan",mod).add("fLimitXUL","",2.)),
-    fLimitYUL(p.add("fLimitYUL","",2.)),
-    fLimitXL(p.add("fLimitXL","",-2.)),
-    fLimitXU(p.add("fLimitXU","",2.)),
-    fLimitYL(p.add("fLimitYL","",-2.)),
-    fLimitYU(p.add("fLimitYU","",2.)),
-    fStep(p.add("fStep","",.1)),
-    fCutoff(p.add("fCutoff","",100))
+  : fLimitXUL(p.addTitle("Distribution function scan",mod).add("fLimitXUL",mod,"",2.)),
+    fLimitYUL(p.add("fLimitYUL",mod,"",2.)),
+    fLimitXL(p.add("fLimitXL",mod,"",-2.)),
+    fLimitXU(p.add("fLimitXU",mod,"",2.)),
+    fLimitYL(p.add("fLimitYL",mod,"",-2.)),
+    fLimitYU(p.add("fLimitYU",mod,"",2.)),
+    fStep(p.add("fStep",mod,"",.1)),
+    fCutoff(p.add("fCutoff",mod,"",100))
 {}
 
 
-- 
2.43.0


From 221504150e5f8103a9648951bb0ebe8894c0a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:15 +0000
Subject: [PATCH 31/45] fix: wignerFunctionOld wrapped negative exponents
 around and mirrored the phase space

---
 CPPQEDcore/quantumdata/DistributionFunctions.cc | 6 +++---
 CPPQEDcore/quantumdata/DistributionFunctions.h  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DistributionFunctions.cc b/CPPQEDcore/quantumdata/DistributionFunctions.cc
index 1245a04..e3fbe78 100644
--- a/CPPQEDcore/quantumdata/DistributionFunctions.cc
+++ b/CPPQEDcore/quantumdata/DistributionFunctions.cc
@@ -35,7 +35,7 @@ namespace {
 const WignerFunctionKernelOld::Hermites fillWithHermite(size_t dim, double x)
 {
   WignerFunctionKernelOld::Hermites res(2*dim-1);
-  res(0)=hermite(0,x); res(1)=hermite(1,x);
+  res(0)=hermite(0,x); if (dim>1) res(1)=hermite(1,x);
   for (unsigned l=1; l<res.size()-1; ++l)
     res(l+1)=hermite_next(l,x,res(l),res(l-1));
   return res;
@@ -52,7 +52,7 @@ double details::w(size_t n, double r, size_t k)
 
 
 WignerFunctionKernelOld::WignerFunctionKernelOld(double x, double y, size_t dim)
-  : hermite_m2x_(fillWithHermite(dim,-2*x)), hermite_2y_(fillWithHermite(dim,2*y))
+  : hermite_2x_(fillWithHermite(dim,2*x)), hermite_2y_(fillWithHermite(dim,2*y))
 {}
 
 
@@ -66,7 +66,7 @@ dcomp WignerFunctionKernelOld::operator()(size_t m, size_t n) const
       binomial_coefficient<double>(n,v)*
       minusOneToThePowerOf(v)*
       pow(1i,u+v)*
-      hermite_m2x_(    u+v)*
+      hermite_2x_(    u+v)*
       hermite_2y_ (n+m-u-v);
 
   return res;
diff --git a/CPPQEDcore/quantumdata/DistributionFunctions.h b/CPPQEDcore/quantumdata/DistributionFunctions.h
index 8865a10..3d43348 100644
--- a/CPPQEDcore/quantumdata/DistributionFunctions.h
+++ b/CPPQEDcore/quantumdata/DistributionFunctions.h
@@ -105,7 +105,7 @@ public:
   dcomp operator()(size_t m, size_t n) const;
   
 private:
-  const Hermites hermite_m2x_, hermite_2y_;
+  const Hermites hermite_2x_, hermite_2y_;
   
 };
 
@@ -124,10 +124,10 @@ double wignerFunctionOld(const DensityOperatorFunctor& rho, double x, double y,
   double res=0;
 
   for (size_t m=0; m<dim; ++m) {
-    res+=real(minusOneToThePowerOf(m)/factorial<double>(m)*rho(m,m)*pow(2.*1i,-2*m)*wignerFunctionKernel(m,m));
+    res+=real(minusOneToThePowerOf(m)/factorial<double>(m)*rho(m,m)*pow(2.*1i,-2*int(m))*wignerFunctionKernel(m,m));
     
     for (size_t n=m+1; n<dim; ++n)
-      res+=2.*real(minusOneToThePowerOf(m)/sqrt(factorial<double>(n)*factorial<double>(m))*rho(n,m)*pow(2.*1i,-m-n)*wignerFunctionKernel(n,m));
+      res+=2.*real(minusOneToThePowerOf(m)/sqrt(factorial<double>(n)*factorial<double>(m))*rho(n,m)*pow(2.*1i,-int(m+n))*wignerFunctionKernel(n,m));
     
   }
   
-- 
2.43.0


From df46d44c6e7fb349742fc43950c0a59276e35c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:07 +0000
Subject: [PATCH 32/45] fix: MCWF summary only at positive log levels, as
 documented

---
 CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc b/CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc
index 90e0421..1375b87 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc
+++ b/CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc
@@ -25,7 +25,7 @@ quantumtrajectory::mcwf::Logger::Logger(int logLevel, size_t nLindblads)
 
 ostream& quantumtrajectory::mcwf::Logger::onEnd(ostream& os) const
 {
-  if (logLevel_) {
+  if (logLevel_>0) {
     os<<"\nTotal number of MCWF steps: "<<nMCWF_steps_<<endl
       <<"\ndpLimit overshot: "<<nOvershot_<<" times, maximal overshoot: "<<dpMaxOvershoot_
       <<"\ndpTolerance overshot: "<<nToleranceOvershot_<<" times, maximal overshoot: "<<dpToleranceMaxOvershoot_<<endl
-- 
2.43.0


From f3a18bfd20a7dd30af72961a1573fee358239927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:55 +0000
Subject: [PATCH 33/45] fix: sequence-valued parameters could not be supplied
 on the command line

---
 CPPQEDutils/Pars.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDutils/Pars.h b/CPPQEDutils/Pars.h
index 4ec30c2..e680fc4 100644
--- a/CPPQEDutils/Pars.h
+++ b/CPPQEDutils/Pars.h
@@ -89,7 +89,7 @@ public:
         T& get()       {return const_cast<T&>(static_cast<const Typed*>(this)->get());}
 
 protected:
-  void read_v(std::istream& is) {is>>v_;}
+  void read_v(std::istream& is) {is>>std::ws>>v_;} // the extraction of Boost.Fusion sequences does not skip leading whitespaces
 
 private:
   void print_v(size_t smw, size_t tmw, size_t dmw) const
-- 
2.43.0


From bb16cc33be347e20fc1539efc9158b57aeccec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:55 +0000
Subject: [PATCH 34/45] fix: negative values of unsigned parameters wrapped
 around silently

---
 CPPQEDutils/Pars.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/CPPQEDutils/Pars.h b/CPPQEDutils/Pars.h
index e680fc4..b308130 100644
--- a/CPPQEDutils/Pars.h
+++ b/CPPQEDutils/Pars.h
@@ -13,6 +13,7 @@
 #include <iomanip>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
 #include <typeinfo>
 
 
@@ -89,7 +90,13 @@ public:
         T& get()       {return const_cast<T&>(static_cast<const Typed*>(this)->get());}
 
 protected:
-  void read_v(std::istream& is) {is>>std::ws>>v_;} // the extraction of Boost.Fusion sequences does not skip leading whitespaces
+  void read_v(std::istream& is)
+  {
+    is>>std::ws; // the extraction of Boost.Fusion sequences does not skip leading whitespaces
+    if constexpr (std::is_unsigned_v<T> && sizeof(T)>1) // the extraction of unsigned numbers would silently wrap negative values around
+      if (is.peek()=='-') {is.setstate(std::ios_base::failbit); return;}
+    is>>v_;
+  }
 
 private:
   void print_v(size_t smw, size_t tmw, size_t dmw) const
-- 
2.43.0


From 541cb83bec2d972341486606628e5b28a492a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:55 +0000
Subject: [PATCH 35/45] fix: transposed state vectors and density operators
 kept the old memory layout

---
 CPPQEDcore/quantumdata/DensityOperator.h | 1 +
 CPPQEDcore/quantumdata/StateVector.h     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 3d0c259..6c2103c 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -153,6 +153,7 @@ public:
   {
     static_assert( sizeof...(SubscriptPack)==RANK , "Incorrect number of subscripts for DensityOperator." );
     getArray().transposeSelf(subscriptPack...,(subscriptPack+RANK)...);
+    DensityOperatorLow temp(getArray().shape()); temp=getArray(); getArray().reference(temp); // so that the storage is laid out according to the new order
     this->setDimensions(blitzplusplus::halfCutTiny(getArray().shape()));
   }
   //@}
diff --git a/CPPQEDcore/quantumdata/StateVector.h b/CPPQEDcore/quantumdata/StateVector.h
index 57640f3..7bdbd33 100644
--- a/CPPQEDcore/quantumdata/StateVector.h
+++ b/CPPQEDcore/quantumdata/StateVector.h
@@ -135,6 +135,7 @@ public:
   {
     static_assert( sizeof...(SubscriptPack)==RANK , "Incorrect number of subscripts for StateVector." );
     getArray().transposeSelf(subscriptPack...);
+    StateVectorLow temp(getArray().shape()); temp=getArray(); getArray().reference(temp); // so that the storage is laid out according to the new order
     this->setDimensions(getArray().shape());
   }
   //@}
-- 
2.43.0


From b36f9dca94c2132d4446dddd27ac7173ce677411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:50 +0000
Subject: [PATCH 36/45] fix: MCWF trajectories honour the noise switch

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 6aae4a4..b8a1ca6 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -104,8 +104,10 @@ public:
   MCWF_Trajectory(structure::QuantumSystemPtr<RANK> sys, ///< object representing the quantum system
                   SV&& psi, ///< the state vector to be evolved
                   ODE_Engine ode, randomutils::EngineWithParameters<RandomEngine> re,
-                  double dpLimit, double overshootTolerance, int logLevel)
-  : structure::QuantumSystemWrapper<RANK>{sys,true}, psi_{std::forward<StateVector>(psi)},
+                  double dpLimit, double overshootTolerance, int logLevel,
+                  bool isNoisy=true ///< if false, quantum jumps are disabled
+                 )
+  : structure::QuantumSystemWrapper<RANK>{sys,isNoisy}, psi_{std::forward<StateVector>(psi)},
     ode_{ode}, re_{re}, dpLimit_{dpLimit}, overshootTolerance_{overshootTolerance},
     logger_{logLevel,this->template nAvr<structure::LA_Li>()}
   {
@@ -205,7 +207,7 @@ auto make(structure::QuantumSystemPtr<std::decay_t<SV>::N_RANK> sys,
           SV&& state, const Pars<RandomEngine>& p)
 {
   return MCWF_Trajectory<std::decay_t<SV>::N_RANK,ODE_Engine,RandomEngine>{
-    sys,std::forward<SV>(state),{initialTimeStep(sys),p},{p.seed,p.prngStream},p.dpLimit,p.overshootTolerance,p.logLevel
+    sys,std::forward<SV>(state),{initialTimeStep(sys),p},{p.seed,p.prngStream},p.dpLimit,p.overshootTolerance,p.logLevel,p.noise
   };
 }
 
-- 
2.43.0


From aca9a9c3aac5b799c2670d8c1b535547286f6f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:50 +0000
Subject: [PATCH 37/45] fix: PumpedLossyMode_Evolved: phase of the second drive
 relative to the first

---
 CPPQEDscripts/PumpedLossyMode_Evolved.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDscripts/PumpedLossyMode_Evolved.cc b/CPPQEDscripts/PumpedLossyMode_Evolved.cc
index df09c6c..49e3adb 100644
--- a/CPPQEDscripts/PumpedLossyMode_Evolved.cc
+++ b/CPPQEDscripts/PumpedLossyMode_Evolved.cc
@@ -29,7 +29,7 @@ int main(int argc, char* argv[])
   alpha=pplm.minit;
 
   run(simulated::makeBoost(alpha,[&](const Array& b, Array& dbdt, double t) {
-    dbdt(0)=dcomp(-pplm.kappa,pplm.delta)*b(0)+pplm.eta+pplm.etaOther*exp(1i*t*(pplm.deltaOther+pplm.delta));
+    dbdt(0)=dcomp(-pplm.kappa,pplm.delta)*b(0)+pplm.eta+pplm.etaOther*exp(1i*t*(pplm.delta-pplm.deltaOther));
   },{"alpha"},dtinit,pt),pt);
   
 }
-- 
2.43.0


From c2934fce7e9eb36f329b637224a01519bcd3cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:50 +0000
Subject: [PATCH 38/45] fix: QbitMode_Evolved: complex coupling enters the
 field equation conjugated

---
 CPPQEDscripts/QbitMode_Evolved.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDscripts/QbitMode_Evolved.cc b/CPPQEDscripts/QbitMode_Evolved.cc
index e53066e..2f1e282 100644
--- a/CPPQEDscripts/QbitMode_Evolved.cc
+++ b/CPPQEDscripts/QbitMode_Evolved.cc
@@ -43,7 +43,7 @@ int main(int argc, char* argv[])
 
   run(simulated::makeBoost(alpha,[&](const Array& b, Array& dbdt, double) {
     dbdt=
-      dcomp(-pplm.kappa,pplm.delta)*b(0)+pjc.g*b(1)+pplm.eta,
+      dcomp(-pplm.kappa,pplm.delta)*b(0)+conj(pjc.g)*b(1)+pplm.eta,
       dcomp(-pplqb.gamma,pplqb.delta)*b(1)-pjc.g*b(0)-pplqb.eta;
   },{"alpha","sigma"},dtinit,pt),pt);
 
-- 
2.43.0


From 40ef6c61e2cfca186c6556400ca44cb3eb159090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:50 +0000
Subject: [PATCH 39/45] fix: SingleParticle: the classical potential is
 switched on by vClass

---
 CPPQEDscripts/SingleParticle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDscripts/SingleParticle.cc b/CPPQEDscripts/SingleParticle.cc
index 91661e8..02b8865 100644
--- a/CPPQEDscripts/SingleParticle.cc
+++ b/CPPQEDscripts/SingleParticle.cc
@@ -21,7 +21,7 @@ int main(int argc, char* argv[])
   
   // ****** ****** ****** ****** ****** ******
 
-  Ptr part(make(ppart,qmp));
+  Ptr part(ppart.vClass ? Ptr(makePumped(ppart,qmp)) : make(ppart,qmp));
 
   if (!ppart.init.getSig() && !ppart.vClass) {cerr<<"Incorrect initial condition"<<endl; abort();}
 
-- 
2.43.0


From eebe3bfd0bde47ead968e124bd78222d63b522a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:50 +0000
Subject: [PATCH 40/45] fix: Kerr term is kept in the Hamiltonian in the
 unitary interaction picture of lossy modes

---
 CPPQEDelements/frees/Mode.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index ed18aae..fc7a532 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -145,7 +145,7 @@ LossyMode<TEMPERATURE,AveragingType>::LossyMode(const mode::ParsLossy& p, Averag
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 LossyModeUIP<TEMPERATURE,AveragingType>::LossyModeUIP(const mode::ParsLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE>(p.kappa,p.nTh),
-    mode::Hamiltonian<true>(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),0.),dcomp(0.,-p.delta),0,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
+    mode::Hamiltonian<true>(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),0.),dcomp(0.,-p.delta),0,0.,p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,{TUPLE_kappa,TUPLE_delta(1)}),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
@@ -178,7 +178,7 @@ PumpedLossyMode<TEMPERATURE,AveragingType>::PumpedLossyMode(const mode::ParsPump
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 PumpedLossyModeUIP<TEMPERATURE,AveragingType>::PumpedLossyModeUIP(const mode::ParsPumpedLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE>(p.kappa,p.nTh),
-    mode::Hamiltonian<true>(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),0.),dcomp(0.,-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
+    mode::Hamiltonian<true>(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),0.),dcomp(0.,-p.delta),p.eta,0.,p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,{TUPLE_kappa,TUPLE_delta(1)},TUPLE_eta),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From c45b700afe99e49bc8e33f79051c9bd418a47bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:01 +0000
Subject: [PATCH 41/45] fix: arrays of any memory layout are converted from
 numpy correctly

---
 cpypyqed/blitz2numpy.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpypyqed/blitz2numpy.h b/cpypyqed/blitz2numpy.h
index eae27d8..0598b9a 100644
--- a/cpypyqed/blitz2numpy.h
+++ b/cpypyqed/blitz2numpy.h
@@ -26,7 +26,7 @@ auto arrayToNumpy(const blitz::Array<T,RANK>& a)
 template<typename T, int RANK>
 auto numpyToArray(const boost::python::numpy::ndarray& array)
 {
-  // we do not know anything about the contiguousness of array
+  // we do not know anything about the contiguousness of array, hence the copy below
   using namespace boost::python;
   ExtTiny<RANK> shape/*, strides*/;
   for (size_t i=0; i<RANK; ++i) {
@@ -35,7 +35,8 @@ auto numpyToArray(const boost::python::numpy::ndarray& array)
   }
   blitz::Array<T,RANK> res(shape);
   {
-    T* d=reinterpret_cast<T*>(array.get_data());
+    const auto contiguous{array.copy()}; // in C order
+    const T* d=reinterpret_cast<const T*>(contiguous.get_data());
     std::copy(d,d+res.size(),res.begin());
   }
   return res;
-- 
2.43.0


From 32659d5b075917cad4a597f8d29b6ac9a9173bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:01 +0000
Subject: [PATCH 42/45] fix: real arrays written from Python are marked as
 such, so that they can be read back

---
 cpypyqed/io.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpypyqed/io.cc b/cpypyqed/io.cc
index 0660cba..f2e5019 100644
--- a/cpypyqed/io.cc
+++ b/cpypyqed/io.cc
@@ -66,7 +66,7 @@ struct WriteState<AdaptiveIO<T,RANK>>
   
   static oarchive& _(const AdaptiveIO<T,RANK>& arrayTime, oarchive& oar)
   {
-    oar & SerializationMetadata{"CArray",SerializationMetadata::ARRAY_ONLY,RANK} & std::get<0>(arrayTime) & std::get<1>(arrayTime);
+    oar & SerializationMetadata{cppqedutils::TypeID_v<blitz::Array<T,RANK>>,SerializationMetadata::ARRAY_ONLY,RANK} & std::get<0>(arrayTime) & std::get<1>(arrayTime);
     return oar;
   }
   
-- 
2.43.0


From 72786f3200c8031200a3b6a06782b367438ebc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:01 +0000
Subject: [PATCH 43/45] fix: Python's write refuses arrays it cannot represent
 before truncating the file

---
 cpypyqed/io.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpypyqed/io.cc b/cpypyqed/io.cc
index f2e5019..4392638 100644
--- a/cpypyqed/io.cc
+++ b/cpypyqed/io.cc
@@ -103,8 +103,8 @@ void doWrite(std::shared_ptr<std::ostream> ofs, const numpy::ndarray &a, double
 
 void throw_rank(int r)
 {
-  if (r>PYTHON_MAX_RANK){
-    PyErr_SetString(PyExc_NotImplementedError,(std::to_string(r)+">PYTHON_MAX_RANK="+std::to_string(PYTHON_MAX_RANK)).c_str());
+  if (r<1 || r>PYTHON_MAX_RANK){
+    PyErr_SetString(PyExc_NotImplementedError,("Rank "+std::to_string(r)+" not between 1 and PYTHON_MAX_RANK="+std::to_string(PYTHON_MAX_RANK)).c_str());
     throw_error_already_set();
   }
 }
@@ -113,7 +113,7 @@ void throw_rank(int r)
 void throw_type(std::string typeID)
 {
   if(typeID!="CArray" && typeID!="DArray") {
-    PyErr_SetString(PyExc_NotImplementedError, (typeID+": import of this data type not implemented.").c_str());
+    PyErr_SetString(PyExc_NotImplementedError, (typeID+": import or export of this data type not implemented.").c_str());
     throw_error_already_set();
   }
 }
@@ -149,10 +149,14 @@ object read(str filename)
 void write(str filename, const numpy::ndarray &array, double time)
 {
   auto f = extract<std::string>(filename);
-  auto ofs = openStateFileWriting(f,std::ios_base::trunc | std::ios_base::binary);
 
+  // everything that cannot be written has to be refused before an already existing file gets truncated
   const int r=array.get_nd(); throw_rank(r);
+  const auto d=array.get_dtype();
+  if (d!=numpy::dtype::get_builtin<double>() && d!=numpy::dtype::get_builtin<dcomp>()) throw_type(extract<std::string>(str(d)));
   
+  auto ofs = openStateFileWriting(f,std::ios_base::trunc | std::ios_base::binary);
+
   switch (r) {
     #define BOOST_PP_LOCAL_MACRO(n)                 \
     case n:                                       \
-- 
2.43.0


From 41e73460cd4dcbfc76bf8d774abf02667d349fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:01 +0000
Subject: [PATCH 44/45] fix: states of other dimensions than those of the
 trajectory are refused on input

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 14 +++++++++++---
 CPPQEDcore/quantumtrajectory/Master.h          | 14 +++++++++++---
 CPPQEDutils/Simulated_.h                       | 14 ++++++++++++--
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index b8a1ca6..efc67bb 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -131,7 +131,7 @@ public:
   /// Forwards to structure::Averaged::stream
   auto stream(std::ostream& os, int precision) const {return structure::QuantumSystemWrapper<RANK>::stream(getTime(),psi_,os,precision);}
   
-  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {StateVectorLow temp; iar & temp; psi_.getArray().reference(temp); return iar;}
+  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {psi_.getArray().reference(readArray(iar)); return iar;}
 
   /** structure of MCWF_Trajectory archives:
   * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry ) – randomEngine – logger
@@ -139,8 +139,8 @@ public:
   // state should precede time in order to be compatible with array-only archives
   auto& stateIO(cppqedutils::iarchive& iar)
   {
-    StateVectorLow temp;
-    ode_.stateIO(iar & temp & t_) & re_.engine & logger_;
+    StateVectorLow temp{readArray(iar)};
+    ode_.stateIO(iar & t_) & re_.engine & logger_;
     psi_.getArray().reference(temp);
     t0_=t_; // A very important step!
     return iar;
@@ -163,6 +163,14 @@ public:
   double sampleRandom() {return distro_(re_.engine);}
   
 private:
+  /// Reads an array making sure that it fits the dimensions of the system
+  StateVectorLow readArray(cppqedutils::iarchive& iar) const
+  {
+    StateVectorLow temp; iar & temp;
+    if (blitz::any(temp.shape()!=psi_.getArray().shape())) throw DimensionalityMismatchException("during QuantumTrajectory state input");
+    return temp;
+  }
+  
   typedef std::tuple<int,StateVectorLow> IndexSVL_tuple;
 
   typedef std::vector<IndexSVL_tuple> IndexSVL_tuples;
diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index 8320520..987a166 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -84,7 +84,7 @@ public:
   
   auto stream(std::ostream& os, int precision) const {return dos_(t_,rho_,os,precision);}
   
-  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {DensityOperatorLow temp; iar & temp; rho_.getArray().reference(temp); return iar;}
+  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {rho_.getArray().reference(readArray(iar)); return iar;}
 
   /** structure of Master archives:
   * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry )
@@ -92,8 +92,8 @@ public:
   // state should precede time in order to be compatible with array-only archives
   auto& stateIO(cppqedutils::iarchive& iar)
   {
-    DensityOperatorLow temp;
-    ode_.stateIO(iar & temp & t_);
+    DensityOperatorLow temp{readArray(iar)};
+    ode_.stateIO(iar & t_);
     rho_.getArray().reference(temp);
     t0_=t_; // A very important step!
     return iar;
@@ -106,6 +106,14 @@ public:
   std::ostream& logOnEnd(std::ostream& os) const {return ode_.logOnEnd(os);}
 
 private:
+  /// Reads an array making sure that it fits the dimensions of the system
+  DensityOperatorLow readArray(cppqedutils::iarchive& iar) const
+  {
+    DensityOperatorLow temp; iar & temp;
+    if (blitz::any(temp.shape()!=rho_.getArray().shape())) throw DimensionalityMismatchException("during QuantumTrajectory state input");
+    return temp;
+  }
+  
   double t_=0., t0_=0.;
   
   DensityOperator rho_;
diff --git a/CPPQEDutils/Simulated_.h b/CPPQEDutils/Simulated_.h
index a6a1488..74192d0 100644
--- a/CPPQEDutils/Simulated_.h
+++ b/CPPQEDutils/Simulated_.h
@@ -54,19 +54,29 @@ public:
     return {os,Copy<StateType>::_(state_)};
   }
 
-  iarchive& readFromArrayOnlyArchive(iarchive& iar) {return iar & state_;}
+  iarchive& readFromArrayOnlyArchive(iarchive& iar) {return arrayIO(iar);}
 
   /** structure of Simulated archives:
    * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry )
    */
   template <typename Archive>
-  Archive& stateIO(Archive& ar) {return ode_.stateIO(ar & state_ & t_);} // state should precede time in order to be compatible with array-only archives
+  Archive& stateIO(Archive& ar) {return ode_.stateIO(arrayIO(ar) & t_);} // state should precede time in order to be compatible with array-only archives
   
   std::ostream& streamKey(std::ostream& os) const {size_t i=3; return keyPrinter_.stream(os,i);}
 
   std::ostream& logOnEnd(std::ostream& os) const {return ode_.logOnEnd(os);}
   
 private:
+  /// Makes sure that on input the array fits the number of variables
+  template <typename Archive>
+  Archive& arrayIO(Archive& ar)
+  {
+    const auto limit=SubscriptLimit<StateType>::_(state_);
+    ar & state_;
+    if (SubscriptLimit<StateType>::_(state_)!=limit) throw std::runtime_error("Array size mismatch in cppqedutils::Simulated");
+    return ar;
+  }
+  
   double t_=0.;
   
   StateType state_;
-- 
2.43.0


From 6e3a563d6b3dec77235828450a0d5080bd615085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:01 +0000
Subject: [PATCH 45/45] fix: refuse array-only records of another type or rank
 and records that are not fully read

---
 CPPQEDutils/Trajectory.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index 63ed375..2fbce28 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -371,10 +371,20 @@ struct ReadState
   {
     SerializationMetadata sm;
     iar & sm;
-    if (sm.trajectoryID==SerializationMetadata::ARRAY_ONLY) return traj.readFromArrayOnlyArchive(iar);
+    const auto expected=MakeSerializationMetadata<Trajectory>::_();
+    if (sm.trajectoryID==SerializationMetadata::ARRAY_ONLY) {
+      if (sm.typeID!=expected.typeID || sm.rank!=expected.rank) throw std::runtime_error("Array mismatch in cppqedutils::trajectory::ReadState");
+      return traj.readFromArrayOnlyArchive(iar);
+    }
     else {
-      if (sm != MakeSerializationMetadata<Trajectory>::_()) throw std::runtime_error("Trajectory mismatch in cppqedutils::trajectory::ReadState");
-      return traj.stateIO(iar);
+      if (sm != expected) throw std::runtime_error("Trajectory mismatch in cppqedutils::trajectory::ReadState");
+      traj.stateIO(iar);
+#ifdef BZ_HAVE_BOOST_SERIALIZATION
+      // the record must not contain more than what the trajectory is able to take in (e.g. ensembles of more members)
+      const bool exhausted=[&] {char c; try {iar.load_binary(&c,1);} catch (const boost::archive::archive_exception&) {return true;} return false;}();
+      if (!exhausted) throw std::runtime_error("Trajectory mismatch in cppqedutils::trajectory::ReadState: record not fully read");
+#endif // BZ_HAVE_BOOST_SERIALIZATION
+      return iar;
     }
   }
 };
-- 
2.43.0

