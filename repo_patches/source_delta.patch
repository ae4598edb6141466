From 1e28e64c994daf67d404157de5496752e954db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 001/111] fix: OGridSum adds every operator of the sum

---
 src/qdlib/OGridSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index 622cef0..15729f6 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -35,10 +35,11 @@ namespace QDLIB {
       
       int k;
       if (_size > 1) {
-	 for (k=1; k < _size; k++)             /* Loop over operators */
+	 for (k=1; k < _size; k++) {           /* Loop over operators */
 	    _O[k]->UpdateTime();
 	    for (int i=0; i < dVec::size(); i++)   /* Loop over grid points */
 	       (*this)[i] += (*(_O[k]))[i];
+	 }
       }
       _isUpTodate = true;
       
-- 
2.43.0


From aff66eac88338717a0bef6981df8c77283243288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 002/111] fix: OGridRaman applies the laser fields in ApplyAdd
 too

---
 src/qdlib/OGridRaman.cpp | 5 +++++
 src/qdlib/OGridRaman.h   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 6d92ed3..598a97c 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -48,6 +48,11 @@ namespace QDLIB {
       MultElements((cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
    }
 
+   void OGridRaman::ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi)
+   {
+      MultElementsAdd((cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
+   }
+
    void OGridRaman::Apply(WaveFunction *Psi)
    {
       MultElements((cVec*) Psi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
diff --git a/src/qdlib/OGridRaman.h b/src/qdlib/OGridRaman.h
index 586a5f9..ea19d5c 100644
--- a/src/qdlib/OGridRaman.h
+++ b/src/qdlib/OGridRaman.h
@@ -43,6 +43,8 @@ namespace QDLIB
 
          virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 
+         virtual void ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi);
+
          virtual void Apply(WaveFunction *Psi);
 
          virtual Operator* operator=(Operator* O);
-- 
2.43.0


From 2374eca116735973f21ebcd4a815fb79b7c5d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 003/111] fix: OGridNablaSq::Copy initializes the derivatives
 of the copy

---
 src/qdlib/OGridNablaSq.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/qdlib/OGridNablaSq.cpp b/src/qdlib/OGridNablaSq.cpp
index 2a22f95..d53079d 100644
--- a/src/qdlib/OGridNablaSq.cpp
+++ b/src/qdlib/OGridNablaSq.cpp
@@ -123,17 +123,18 @@ namespace QDLIB
       if (org == NULL)
          throw(EIncompatible("O is not of type OGridNablaSq", O->Name()));
 
-      _params = org->_params;
+      if (org == this) return this;
+
+      Init(org->_params); /* masses and prefactors */
+
       /* Copy parents */
       *((GridSystem*) this) = *((GridSystem*) org);
 
-      if (_dspace == NULL && org->_dspace != NULL) {
-         _dspace = new dVec();
-         *_dspace = *(org->_dspace);
-      }
-
-      for (int i = 0; i < GridSystem::Dim(); i++) {
-         _mass[i] = org->_mass[i];
+      _dspace = NULL;
+      if (org->_dspace != NULL) { /* d-space is hosted in Diff class */
+         Diff::SetGrid(*this);
+         Diff::InitParams(_params);
+         InitDspace();
       }
 
       return this;
-- 
2.43.0


From 559914cb81585c25ab4ee0b178d07739a28155b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 004/111] fix: OGridNabla::Copy copies the active dimension and
 accepts uninitialized sources

---
 src/qdlib/OGridNabla.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 99ed516..0dcdedc 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -129,13 +129,16 @@ namespace QDLIB {
       _params = o->_params;
       _fac = o->_fac;
       _momentum = o->_momentum;
+      _dim = o->_dim;
 
       *((GridSystem*) this) = *((GridSystem*) o);
 
-      if (_kspace == NULL)
-         _kspace = new dVec(GridSystem::Size(), true);
+      if (o->_kspace != NULL) {
+         if (_kspace == NULL)
+            _kspace = new dVec(GridSystem::Size(), true);
 
-      *_kspace = *(o->_kspace);
+         *_kspace = *(o->_kspace);
+      }
 
       return this;
    }
-- 
2.43.0


From 5a0400c6f087ce842a5f2f5d4d0b9861ee125e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 005/111] fix: OGridKick::Copy allocates the momentum vector of
 the copy

---
 src/qdlib/OGridKick.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qdlib/OGridKick.cpp b/src/qdlib/OGridKick.cpp
index 82fb545..80d4acf 100644
--- a/src/qdlib/OGridKick.cpp
+++ b/src/qdlib/OGridKick.cpp
@@ -129,13 +129,10 @@ namespace QDLIB {
       /* Copy parents */
       *((GridSystem*) this) = *((GridSystem*) org);
 
-      if (_exp == NULL && org->_exp != NULL) {
-         _exp = new cVec();
+      if (org->_exp != NULL) {
+         if (_exp == NULL) _exp = new cVec();
          *_exp = *(org->_exp);
-      }
-
-      for (int i = 0; i < GridSystem::Dim(); i++) {
-         _kn[i] = org->_kn[i];
+         _kn = org->_kn;
       }
 
       return this;
-- 
2.43.0


From a37f5f39988fb7850f1f78b95bc02b1b2d5cd33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 006/111] fix: OGridGMat::Copy transfers all matrix elements
 and sets up the copy

---
 src/qdlib/OGridGMat.cpp | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 750c8be..1025590 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -163,7 +163,7 @@ namespace QDLIB {
       for (i = 0; i < n; i++) {
          _wfbuf[i] = NULL;
          _Gmat[i] = new OGridPotential*[n];
-         for (uint j = 0; j <= i; j++) {
+         for (uint j = 0; j < n; j++) {
             _Gmat[i][j] = NULL;
          }
       }
@@ -417,28 +417,35 @@ namespace QDLIB {
       _size = o->_size;
       
       _KinCoup = o->_KinCoup;
-      
-      if(_kspace == NULL) _kspace = new dVec[_size];
-      if (_Gmat == NULL) _Gmat = new OGridPotential**[_size];
       _GmatC = o->_GmatC;
-      if (_wfbuf == NULL) _wfbuf = new WFGridSystem*[_size];
+      _src = o->_src;
+
+      if (o->_Gmat == NULL || _Gmat != NULL) return this;
+
+      _kspace = new dVec[_size];
+      _Gmat = new OGridPotential**[_size];
+      _wfbuf = new WFGridSystem*[_size];
 
       for (int i=0; i < _size; i++){
-	 _kspace[i] = o->_kspace[i];
-	 _wfbuf[i] = dynamic_cast<WFGridSystem*>(o->_wfbuf[i]->NewInstance());
-	 buf = dynamic_cast<WFGridSystem*>(o->_wfbuf[i]->NewInstance());
-	 _Gmat[i] = new OGridPotential*[_size];
-	 
-	 for(int j=0; j <= i; j++){
+         _wfbuf[i] = NULL;
+         _Gmat[i] = new OGridPotential*[_size];
+
+         for(int j=0; j < _size; j++)
+            _Gmat[i][j] = NULL;
+      }
+
+      for (int i=0; i < _size; i++){
+         for(int j=0; j <= i; j++){
             if (o->_Gmat[i][j] != NULL){
-	       if (o->_GmatC(i,j) < 0) {
-                  _Gmat[i][j] = new OGridPotential();
-                  _Gmat[j][i] = _Gmat[i][j];
-                  *(_Gmat[i][j]) = *(o->_Gmat[i][j]);
-	       }
+               _Gmat[i][j] = new OGridPotential();
+               _Gmat[j][i] = _Gmat[i][j];
+               *((Operator*) _Gmat[i][j]) = (Operator*) o->_Gmat[i][j];
             }
-	 }
+         }
       }
+
+      if (o->buf != NULL) Init(o->buf); /* Setup buffers and derivatives */
+
       return this;
    }
    
-- 
2.43.0


From de3a830c14b56a8c559f98dd31cb063ca699ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 007/111] fix: OGridHOFD::Copy copies the differentiation
 object, masses and parameters

---
 src/qdlib/OGridHOFD.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qdlib/OGridHOFD.cpp b/src/qdlib/OGridHOFD.cpp
index dcaf1c6..cbf6472 100644
--- a/src/qdlib/OGridHOFD.cpp
+++ b/src/qdlib/OGridHOFD.cpp
@@ -142,6 +142,12 @@ namespace QDLIB {
       _deriv = o->_deriv;
       _order = o->_order;
       _dim = o->_dim;
+      _pfac = o->_pfac;
+      _mass = o->_mass;
+      _params = o->_params;
+
+      if (_hofd != NULL) delete _hofd;
+      _hofd = (o->_hofd != NULL) ? new cHOFD(*(o->_hofd)) : NULL;
 
       OGridSystem::Copy(O);
 
-- 
2.43.0


From 8d3e1f5119b6e8360deb6db6bc12e164be50059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 008/111] fix: OProjection::Copy copies the projector states
 and the buffer

---
 src/qdlib/OProjection.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OProjection.cpp b/src/qdlib/OProjection.cpp
index 52a1613..89f66fe 100644
--- a/src/qdlib/OProjection.cpp
+++ b/src/qdlib/OProjection.cpp
@@ -110,9 +110,14 @@ namespace QDLIB {
       
       _inv = o->_inv;
       _sign = o->_sign; 
-      
+      _params = o->_params;
+
+      if (_buf == NULL && o->_buf != NULL) {
+         _buf = o->_buf->NewInstance();
+         _buf->Retire();
+      }
 
-      for (uint i=0; i < Size(); i++){
+      for (uint i=0; i < o->Size(); i++){
          Add((*o)[i]);
       }
 
-- 
2.43.0


From eb4a6d652d537fc569209f0f6e0753bafe6a2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 009/111] fix: OMultistate::Copy copies all settings and
 accepts uninitialized sources

---
 src/qdlib/OMultistate.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 77c993d..acb7525 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -286,13 +286,21 @@ namespace QDLIB
 	 throw (EIncompatible("Multistate operator copy not possible", O->Name()));
       
       _hermitian = o->_hermitian;
+      Operator::_hermitian = o->Operator::_hermitian;
+      _isTimedependent = o->_isTimedependent;
       _nstates = o->_nstates;
+      _unity = o->_unity;
+      _subinit = o->_subinit;
+      _params = o->_params;
+      clock = o->clock;
 
-      _buf1 =  dynamic_cast<WFMultistate*>(o->_buf1->NewInstance());
-      _buf1->Retire();
+      if (_buf1 == NULL && o->_buf1 != NULL) {
+         _buf1 =  dynamic_cast<WFMultistate*>(o->_buf1->NewInstance());
+         _buf1->Retire();
 
-      _buf2 =  dynamic_cast<WFMultistate*>(o->_buf2->NewInstance());
-      _buf2->Retire();
+         _buf2 =  dynamic_cast<WFMultistate*>(o->_buf2->NewInstance());
+         _buf2->Retire();
+      }
 
       
       if (_hermitian){
-- 
2.43.0


From 8dfdd3e0ef599c989994ed975585fe75fd83ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 010/111] fix: OMultistate does not run past the last state

---
 src/qdlib/OMultistate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index acb7525..dc88457 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -132,7 +132,7 @@ namespace QDLIB
 	 }
       } else {
 	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= _nstates; j++){
+	    for(int j=0; j< _nstates; j++){
 	       if (_matrix[i][j] != NULL)
                   if (_subinit)
 		    _matrix[i][j]->Init(psi->State(j));
@@ -152,7 +152,7 @@ namespace QDLIB
 	 }
       } else {
 	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= _nstates; j++){
+	    for(int j=0; j< _nstates; j++){
 	       if (_matrix[i][j] != NULL)
 		  _matrix[i][j]->UpdateTime();
 	    }
-- 
2.43.0


From d0e7144deccde3afb2e971c83423051d27ea2297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 011/111] fix: FD rejects grids with less points than the
 stencil needs

---
 src/qdlib/HOFD.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qdlib/HOFD.h b/src/qdlib/HOFD.h
index edeedf1..754cd7b 100644
--- a/src/qdlib/HOFD.h
+++ b/src/qdlib/HOFD.h
@@ -193,6 +193,9 @@ namespace QDLIB
          _grid.ActiveDim(dim); /* Use index mapping scheme */
          int Nx = _grid.NumActive();
 
+         if (Nx < _order)
+            throw(EParamProblem("Too few grid points for order of FD derivative", Nx));
+
          double df=1;
          if (_deriv % 2 != 0) df = -1;
 
-- 
2.43.0


From b77aa50fa46e64222a5512bc539ee672d3a57d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 012/111] fix: OGridHOFD uses the mass of each dimension

---
 src/qdlib/OGridHOFD.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridHOFD.cpp b/src/qdlib/OGridHOFD.cpp
index cbf6472..d2496dc 100644
--- a/src/qdlib/OGridHOFD.cpp
+++ b/src/qdlib/OGridHOFD.cpp
@@ -76,6 +76,9 @@ namespace QDLIB {
          if (vec.size() < 1)
             throw(EParamProblem("HOFD operator needs at least one mass defintion"));
 
+         if (int(vec.size()) < GridSystem::Dim())
+            throw(EParamProblem("HOFD operator needs a mass for every dimension"));
+
          /* Check if mass definitions make sense */
          bool eff = false;  /* Indicate at least 1 non-zero dim */
 
@@ -84,7 +87,7 @@ namespace QDLIB {
                throw(EParamProblem("Zero mass defined"));
             if (_mass[i] > -1) eff = true;
 
-            factor = -1./ (2 * _mass[i]);
+            factor[i] = -1./ (2 * _mass[i]);
          }
 
          _hofd->SetFactor(factor);
-- 
2.43.0


From 749153c9c479d00b44b397b0513d0f3cbd55fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 013/111] fix: Diff applies the dimension prefactor once with
 finite differences

---
 src/qdlib/Diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/Diff.cpp b/src/qdlib/Diff.cpp
index ee65f40..112bebb 100644
--- a/src/qdlib/Diff.cpp
+++ b/src/qdlib/Diff.cpp
@@ -235,7 +235,7 @@ namespace QDLIB
             _FFT.Backward(out, dim);
             break;
          case HOFD:
-            _hofd->SetFactor(d * _pfac[dim]);
+            _hofd->SetFactor(d);
             _hofd->Diff(out, in, dim);
             break;
       }
-- 
2.43.0


From e9bca0939c3aa9ff5502f3f181a61d42b53490d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 014/111] fix: Diff prepares the requested single dimension

---
 src/qdlib/Diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/Diff.cpp b/src/qdlib/Diff.cpp
index 112bebb..ea3c642 100644
--- a/src/qdlib/Diff.cpp
+++ b/src/qdlib/Diff.cpp
@@ -62,7 +62,7 @@ namespace QDLIB
          int end = _grid.Dim();
          if (_dim > -1) {
             begin = _dim;
-            end = _dim;
+            end = _dim + 1;
          }
 
          /* Setup derivatives for every coordinate */
-- 
2.43.0


From 918baa8903e206ef88e30441b28fd8cd40067ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 015/111] fix: VectorView keeps the replica count of the active
 dimension and returns sums

---
 src/math/VectorView.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/math/VectorView.h b/src/math/VectorView.h
index 18c25d8..58d82bb 100644
--- a/src/math/VectorView.h
+++ b/src/math/VectorView.h
@@ -94,8 +94,14 @@ namespace QDLIB
       
       _adim = dim;
       
+      /* Determine how many times one x_i value is present */
+      _nothers = 1;
+      for(int i=0; i < _ndims; i++)
+      {
+	 if (i != dim) _nothers *= _dims[i];
+      }
+
       if (_view[dim] == NULL){
-	 _nothers = 1;
 	 int lothers = 1;
 	 
 	 /* Determine how many values in the lower dims are  present */
@@ -105,12 +111,6 @@ namespace QDLIB
 	       lothers *= _dims[i];
 	 }
 	 
-	 /* Determine how many times one x_i value is present */
-	 for(int i=0; i < _ndims; i++)
-	 {
-	    if (i != dim) _nothers *= _dims[i];
-	 }
-	 
 	 /* Reserve space for active dimension*/
 	 _view[dim] = new T**[_dims[dim]];
 	 /* Set the pointer array */
@@ -151,6 +151,7 @@ namespace QDLIB
 	    (*r)[j] += *(_view[_adim][i][j]);
 	 }
       }
+      return r;
    }
    
    /**
-- 
2.43.0


From 042c3e41f3f49d4d145d733d82a02e9e65b0e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 016/111] fix: FFT planning preserves the content of both
 buffers

---
 src/fft/fft.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/fft/fft.cpp b/src/fft/fft.cpp
index 41b45b7..ed9a576 100644
--- a/src/fft/fft.cpp
+++ b/src/fft/fft.cpp
@@ -99,12 +99,14 @@ namespace QDLIB {
                FFTW_FORWARD, optflag | FFTW_PRESERVE_INPUT | FFTW_WISDOM_ONLY);
 
       if (_planf[0] == NULL){ /* Create fresh, optimized plan */
-         cVec inbuf;
+         cVec inbuf, outbuf;
          inbuf = in; /* Save for planning */
+         outbuf = out;
          _planf[0] = fftw_plan_dft(grid.Dim(), _rdims, (fftw_complex*) _cin, (fftw_complex*) _cout,
                   FFTW_FORWARD, optflag);
 
          in = inbuf;
+         out = outbuf;
       }
 
       /* backward plan */
@@ -112,11 +114,13 @@ namespace QDLIB {
          _planb[0] = fftw_plan_dft(grid.Dim(), _rdims, (fftw_complex*) _cout, (fftw_complex*) _cin,
                   FFTW_BACKWARD, optflag | FFTW_PRESERVE_INPUT | FFTW_WISDOM_ONLY);
          if (_planb[0] == NULL){
-            cVec inbuf;
+            cVec inbuf, outbuf;
             inbuf = in; /* Save for planning */
+            outbuf = out;
             _planb[0] = fftw_plan_dft(grid.Dim(), _rdims, (fftw_complex*) _cout, (fftw_complex*) _cin,
                      FFTW_BACKWARD, optflag);
             in = inbuf;
+            out = outbuf;
          }
       }
    }
@@ -162,6 +166,7 @@ namespace QDLIB {
    {
       int optflag = FFTGlobal::Instance().OptimizeFlag();
 
+      lint size = _lothers(_ndims); /* all grid points */
       int lothers = _lothers(dim);  /* points in lower dims */
       int cdim = _ndims - dim - 1; /* reversed dim index (C-order) */
 
@@ -191,13 +196,14 @@ namespace QDLIB {
 
 
       if (_planf[dim+1] == NULL){ /* Create fresh, optimized plan */
-         cVec inbuf;
-         inbuf = *_in; /* Save for planning */
+         vector<dcomplex> inbuf(_cin, _cin + size);  /* Save for planning */
+         vector<dcomplex> outbuf(_cout, _cout + size);
          _planf[dim+1] = fftw_plan_guru_dft(1, &datadim, _ndims - 1, loopdim,
                                           (fftw_complex*) _cin,
                                           (fftw_complex*) _cout,
                                           FFTW_FORWARD, optflag);
-         *_in = inbuf;
+         std::copy(inbuf.begin(), inbuf.end(), _cin);
+         std::copy(outbuf.begin(), outbuf.end(), _cout);
       }
 
 
@@ -210,13 +216,14 @@ namespace QDLIB {
                                           FFTW_BACKWARD, FFTW_PATIENT | FFTW_PRESERVE_INPUT | FFTW_WISDOM_ONLY);
 
          if (_planb[dim+1] == NULL){ /* Create fresh, optimized plan */
-            cVec inbuf;
-            inbuf = *_in; /* Save for planning */
+            vector<dcomplex> inbuf(_cin, _cin + size);  /* Save for planning */
+            vector<dcomplex> outbuf(_cout, _cout + size);
             _planb[dim+1] = fftw_plan_guru_dft(1, &datadim, _ndims - 1, loopdim,
                                              (fftw_complex*) _cout,
                                              (fftw_complex*) _cin,
                                              FFTW_BACKWARD, optflag);
-           *_in = inbuf;
+            std::copy(inbuf.begin(), inbuf.end(), _cin);
+            std::copy(outbuf.begin(), outbuf.end(), _cout);
          }
 
       }
-- 
2.43.0


From 9d8f13d5482056ac1a2a61785f65c8ad6858d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 017/111] fix: a copied operator list keeps names and
 properties of its members

---
 src/qdlib/OList.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qdlib/OList.cpp b/src/qdlib/OList.cpp
index 3003f7e..3cbcb3e 100644
--- a/src/qdlib/OList.cpp
+++ b/src/qdlib/OList.cpp
@@ -189,6 +189,11 @@ namespace QDLIB {
          throw( EIncompatible ("Incompatible in Assignment", this->Name(), O->Name() ) );
       
       _size = r->_size;
+      _NamedEntries = r->_NamedEntries;
+      _isTimedependent = r->_isTimedependent;
+      _hermitian = r->_hermitian;
+      _conj = r->_conj;
+      clock = r->clock;
       
       for (int i=0; i < _size; i++){
          _O[i] = r->Get(i)->NewInstance();
-- 
2.43.0


From 2704f15bb9cafabbe34d5edbec7eb27b8c08592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 018/111] fix: the last state of a multistate wave function is
 usable, more states are refused

---
 src/qdlib/WFMultistate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 1831c5c..fb70aaa 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -42,7 +42,7 @@ namespace QDLIB
     */
    void WFMultistate::Add( WaveFunction * Psi, lint index)
    {
-      if (index+1 >= QD_MAX_STATES )
+      if (index < 0 || index >= QD_MAX_STATES )
 	 throw( EOverflow( "More states requested than possible (QD_MAX_STATES)") );
       
       if (index+1 > _nstates){
@@ -115,6 +115,9 @@ namespace QDLIB
        throw (EParamProblem("Empty multi state wave function"));
       
       /* resize if needed */
+      if (reqsize > QD_MAX_STATES)
+         throw( EOverflow( "More states requested than possible (QD_MAX_STATES)") );
+
       if (_nstates < reqsize){
        for (int i=_nstates; i < reqsize; i++){
           _states[i] = wflast->NewInstance();
-- 
2.43.0


From 83ee28f4875480b80f7e0458a9d84d74bdf462ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 019/111] fix: assigning another kind of wave function to a
 grid function is an error

---
 src/qdlib/WFGridCartesian.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/WFGridCartesian.cpp b/src/qdlib/WFGridCartesian.cpp
index ddd6d37..fc5543c 100644
--- a/src/qdlib/WFGridCartesian.cpp
+++ b/src/qdlib/WFGridCartesian.cpp
@@ -54,7 +54,11 @@ namespace QDLIB {
    WaveFunction * WFGridCartesian::operator =(WaveFunction * Psi)
    {
       /* WFGridSystem already knows what to copy */
-      *((WFGridSystem*) this) = dynamic_cast<WFGridSystem*> (Psi);
+      WFGridSystem *psi = dynamic_cast<WFGridSystem*> (Psi);
+
+      if (psi == NULL) throw ( EIncompatible("WFGridCartesian can't copy from", Psi->Name()) );
+
+      *((WFGridSystem*) this) = psi;
       
       return this;
    }
-- 
2.43.0


From a2e02c2ca234545a8532233b8dabc79ca2275110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 020/111] fix: powers of the imaginary unit with negative
 exponents, square root of zero

---
 src/math/dcomplex.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/dcomplex.h b/src/math/dcomplex.h
index 84bc17b..200f468 100644
--- a/src/math/dcomplex.h
+++ b/src/math/dcomplex.h
@@ -379,13 +379,13 @@ namespace QDLIB {
    */
   inline dcomplex cpow(Imaginary i, int n)
   {
-     int rem = n % 4;
+     int rem = ((n % 4) + 4) % 4;
 
      switch (rem){
         case 0: return dcomplex(1);
         case 1: return dcomplex(0,1);
         case 2: return dcomplex(-1);
-        case 3: return dcomplex(0,-1);
+        default: return dcomplex(0,-1);
      }
   }
 
@@ -395,6 +395,7 @@ namespace QDLIB {
   inline dcomplex csqrt(dcomplex c)
   {
      double r  = cabs(c);
+     if (r == 0) return dcomplex(0);
      double phi = phase(c);
 
      return sqrt(r) * cexpI(phi/2);
-- 
2.43.0


From b8021bacf6514490a94c2329d7712d245f25ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 021/111] fix: a grid wave function assigned or restored from
 another grid shape kept the old FFT plan

---
 src/qdlib/WFGridSystem.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 58e999d..d8fdf25 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -68,6 +68,11 @@ namespace QDLIB {
     */
    void WFGridSystem::operator =(WFGridSystem *G)
    {
+      if (_fft != NULL && *((GridSystem*) this) != *((GridSystem*) G)){
+         delete _fft;
+         _fft = NULL;
+      }
+
       IsKspace(G->IsKspace());
       *((GridSystem*) this) = *((GridSystem*) G);
       *((cVec*) this) = *((cVec*) G);
@@ -125,6 +130,13 @@ namespace QDLIB {
    {
       WFGridSystem* psi = dynamic_cast<WFGridSystem*>(Psi);
 
+      if (psi == NULL) throw ( EIncompatible("Can't restore a grid wave function from", Psi->Name()) );
+
+      if (_fft != NULL && *((GridSystem*) this) != *((GridSystem*) psi)){
+         delete _fft;
+         _fft = NULL;
+      }
+
       // Copy
       IsKspace(true);
       *((GridSystem*) this) = *((GridSystem*) psi);
-- 
2.43.0


From e579ba64aff133a9138f8a22148b201ea39c8073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 022/111] fix: copying a multistate wave function between
 k-space and x-space left its strides pointing to the old buffers

---
 src/qdlib/WFMultistate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index fb70aaa..204c2ee 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -194,6 +194,7 @@ namespace QDLIB
       if (_nstates != psi->_nstates)
 	 throw( EIncompatible("Multistate WFs differ in number of states") ) ;
       
+      IsKspace(psi->_IsKspace);
       
       for(lint i=0; i < psi->_nstates; i++){
 	 *(_states[i]) = psi->_states[i];
-- 
2.43.0


From 87770745b519e8bbe673e116bb4651c0a3ad0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 023/111] fix: WFLevel::Reduce dropped all negative components

---
 src/qdlib/WFLevel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index fab87a5..2d795a6 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -109,12 +109,12 @@ namespace QDLIB {
       
       for (int i=0; i <  size; i++){
          /* treat real & imag seperately */
-         if ( (*this)[i].real() < norm )
+         if ( fabs((*this)[i].real()) < norm )
             (*out)[i]._real = 0;
          else
             (*out)[i]._real = (*this)[i].real();
          
-         if ( (*this)[i].imag() < norm )
+         if ( fabs((*this)[i].imag()) < norm )
             (*out)[i]._imag = 0;
          else
             (*out)[i]._imag = (*this)[i].imag();
-- 
2.43.0


From 23c019179a0f7038b09a8293e0d85096e39fd172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 024/111] fix: a grid description with too many dimensions, or
 without a size for one of them, was accepted

---
 src/qdlib/GridSystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qdlib/GridSystem.cpp b/src/qdlib/GridSystem.cpp
index a4c8c20..2e7be25 100644
--- a/src/qdlib/GridSystem.cpp
+++ b/src/qdlib/GridSystem.cpp
@@ -22,6 +22,7 @@ namespace QDLIB {
 
       header.set_dims(dims);
       if ( dims <= 0 ) throw ( EParamProblem("Zero number of dimension defined") );
+      if ( dims > MAX_DIMS ) throw ( EParamProblem("GridSystem: Number of Dimensions exceeds MAX_DIMS") );
 
       int i = 0;
       int n = 0;
@@ -52,6 +53,9 @@ namespace QDLIB {
          i++;
          sprintf(c, "%d", i);
       }
+
+      if (i < dims)
+         throw ( EParamProblem("Grid size missing for a dimension") );
    }
 
    void GridSystemHeaderPm::DumpParams(ParamContainer& pm)
-- 
2.43.0


From ceb4e4e32fd4aa3a7342bb79d8c35cfb7a90937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 025/111] fix: FullDiagHermitian for complex matrices allocated
 its complex and real workspaces with each other's size

---
 src/linalg/LapackDiag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/LapackDiag.cpp b/src/linalg/LapackDiag.cpp
index df0964c..aec73ad 100644
--- a/src/linalg/LapackDiag.cpp
+++ b/src/linalg/LapackDiag.cpp
@@ -64,10 +64,10 @@ namespace LAPACK {
       char uplo = 'U';
       
       double *ws;
-      Memory::Instance().Align( (void**) &ws, ws_size*sizeof(dcomplex));
+      Memory::Instance().Align( (void**) &ws, ws_size*sizeof(double));
 
       dcomplex *wsC;
-      Memory::Instance().Align((void**) &wsC, ws_size*sizeof(double));
+      Memory::Instance().Align((void**) &wsC, ws_size*sizeof(dcomplex));
 
       ZHEEV_F77(&jobz, &uplo, &size, mat->begin(),  &size,
 	     evals->begin(0) , wsC , &ws_size, ws, &info);
-- 
2.43.0


From 2b9d79a7fcdd0fc83b5e3065f0e9882dec438607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 026/111] fix: InvertGeneral leaked its workspace

---
 src/linalg/LapackDiag.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linalg/LapackDiag.cpp b/src/linalg/LapackDiag.cpp
index aec73ad..8440f85 100644
--- a/src/linalg/LapackDiag.cpp
+++ b/src/linalg/LapackDiag.cpp
@@ -234,6 +234,8 @@ namespace LAPACK {
 
       ZGETRI_F77(&n, mat->begin(0), &m, ipiv.begin(0), ws, &wsize, &info);
 
+      Memory::Instance().Free( (void*) ws );
+
       if (info < 0){
          cout << "*** GETRF Error: Invalid argument: " << info << endl;
          return info;
-- 
2.43.0


From 0324af7e7bfcb2ad8187d2f53b5b4b7d65350703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 027/111] fix: a vector view of a strided vector freed
 uninitialised pointers

---
 src/math/VectorView.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math/VectorView.h b/src/math/VectorView.h
index 58d82bb..5c2d119 100644
--- a/src/math/VectorView.h
+++ b/src/math/VectorView.h
@@ -53,6 +53,8 @@ namespace QDLIB
 	 cout << "!!!WARNING: VectorView doesn't work with strided vectors!!!" << endl;
 	 _ndims = 0;
 	 _dims = 0;
+	 _view = NULL;
+	 _v = NULL;
 	 return;
       }
       _v = vec.begin(0);
-- 
2.43.0


From 433c69378b3fcdb874f46c3b906a1bd97a5fe558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 028/111] fix: setting a matrix diagonal from a shorter vector
 read past its end

---
 src/math/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/Matrix.h b/src/math/Matrix.h
index 3633b9f..a59eca7 100644
--- a/src/math/Matrix.h
+++ b/src/math/Matrix.h
@@ -205,7 +205,7 @@ namespace QDLIB {
    template <class T>
    void Matrix<T>::diag(Vector<T>* diagvec)
    {
-      if (_m != _n || _m < diagvec->size() ) return;
+      if (_m != _n || _m != diagvec->size() ) return;
       
       for(int i=0; i < _m; i++)
       {
-- 
2.43.0


From cbcbc0556b68b004ed9a06f23b27990a87456901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 029/111] fix: copy-constructed matrices shared and freed the
 same storage twice

---
 src/math/Matrix.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/math/Matrix.h b/src/math/Matrix.h
index a59eca7..b75734a 100644
--- a/src/math/Matrix.h
+++ b/src/math/Matrix.h
@@ -32,6 +32,7 @@ namespace QDLIB {
       public:
          Matrix();
 	 Matrix(int i, int j);
+	 Matrix(const Matrix<T> &M);
 	 ~Matrix();
 	 
 	 void newsize(lint m, lint n);
@@ -125,6 +126,15 @@ namespace QDLIB {
    }
    
    
+   /**
+    * Copy constructor.
+    */
+   template <class T>
+   Matrix<T>::Matrix(const Matrix<T> &M) : _m(0), _n(0), _mn(0), _v(NULL), _col(NULL)
+   {
+      *this = M;
+   }
+
    template <class T>
    Matrix<T>::~Matrix()
    {
-- 
2.43.0


From e37e88b94366f638b2631dd038db07117d0f6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 030/111] fix: products of non-square matrices with vectors
 used the wrong result size

---
 src/math/Matrix.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/math/Matrix.h b/src/math/Matrix.h
index b75734a..0ec9acf 100644
--- a/src/math/Matrix.h
+++ b/src/math/Matrix.h
@@ -320,31 +320,35 @@ namespace QDLIB {
       if (cols != A->size() && !transpose) return;
       if (rows != A->size() && transpose) return;
       
-      if (B->size() != A->size())
-         B->newsize(A->size());
+      /* size of the result and of the sum */
+      int n = transpose ? cols : rows;
+      int m = transpose ? rows : cols;
+
+      if (B->size() != n)
+         B->newsize(n);
       
       T *b = B->begin(0);
       T *a = A->begin(0);
       
       if (transpose && !adjoint){
-	 for(int i=0; i < rows; i++){
+	 for(int i=0; i < n; i++){
             b[i] = T(0);
-	    for(int j=0; j < cols; j++){
+	    for(int j=0; j < m; j++){
 	       b[i] += (*M)(j,i) * a[j];
 	    }
 	 }
       } else if (transpose && adjoint){
-         for(int i=0; i < rows; i++){
+         for(int i=0; i < n; i++){
             b[i] = T(0);
-            for(int j=0; j < cols; j++){
+            for(int j=0; j < m; j++){
                b[i] += conj((*M)(j,i)) * a[j];
             }
          }         
       }
       else {
-	 for(int i=0; i < rows; i++){
+	 for(int i=0; i < n; i++){
 	    b[i] = T(0);
-	    for(int j=0; j < cols; j++){
+	    for(int j=0; j < m; j++){
                b[i] += (*M)(i,j) * a[j];
 	    }
 	 }
-- 
2.43.0


From be8b5238c49953813d4eba708db09b5309ba23d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:34 +0000
Subject: [PATCH 031/111] fix: OHermitianMatrix: a copy of a diagonalised
 matrix had no eigenvalues and crashed, stale eigenvalues after reading or
 copying

---
 src/qdlib/OHermitianMatrix.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index 5193b6b..7087438 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -191,16 +191,12 @@ namespace QDLIB {
 
       *((dMat*) this) = *((dMat*) op);
 
-      if (_X != NULL)
-         *_X = *(op->_X);
-
-      if (_dspace != NULL)
-         *_dspace = *(op->_dspace);
-
-      op->_XT.SetMatrix(op->_X);
       _params =  op->Params();
 
-      _valid = op->_valid;
+      /* eigenvalues and eigenvectors are generated on demand */
+      delete _dspace;
+      _dspace = NULL;
+      _valid = false;
       return this;
    }
 
@@ -221,6 +217,8 @@ namespace QDLIB {
       *(dMat*) this = (dMat) O;
       _params =  O.Params();
 
+      delete _dspace;
+      _dspace = NULL;
       _valid = false;
       return *this;
    }
@@ -266,8 +264,8 @@ namespace QDLIB {
 
       if (_X == NULL){
          _X = new dMat(rows(),rows());
-         _XT.SetMatrix(_X);
       }
+      _XT.SetMatrix(_X);
 
       *_X = *((dMat*) this);
       _dspace->newsize(rows());
@@ -297,6 +295,9 @@ namespace QDLIB {
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
 
       newsize(size, size);
+      delete _dspace;
+      _dspace = NULL;
+      _valid = false;
 
       is.read(reinterpret_cast<char*>(begin()), sizeBytes());
    }
-- 
2.43.0


From a2af4480b1322c64465341bc58011f530055153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 032/111] fix: wrong eigenvectors of symmetric 2x2 matrices
 with equal diagonal and negative coupling

---
 src/math/math_functions.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/math_functions.h b/src/math/math_functions.h
index 3fb6b85..a5a46f2 100644
--- a/src/math/math_functions.h
+++ b/src/math/math_functions.h
@@ -154,10 +154,12 @@ namespace QDLIB {
          /* Eigenvectors */
          double theta = (m2-m1)/(2*m12);
          double sgntheta =0.0;
-         if(theta>=0.0)
+         if(theta>0.0)
             sgntheta = 1.0;
          else if(theta<0.0)
             sgntheta = -1.0;
+         else /* degenerate: keep the order of the eigenvalues */
+            sgntheta = (m12 > 0.0) ? 1.0 : -1.0;
          double t = sgntheta/( fabs(theta)+sqrt(theta*theta+1) );
          double cos = 1.0/(sqrt(t*t+1));
          
-- 
2.43.0


From b23f1169e94919b9c6b47429fd57d4c61886b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 033/111] fix: typed keys were only parsed if the type name had
 the length of the key; lines over 2047 characters hung the parser

---
 src/tools/ParamContainer.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 18e9b2a..3238a83 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -731,15 +731,10 @@ namespace QDLIB {
    void ParamContainer::Parse(istream &stream, const char* eof)
    {
       string s;
-      char line[MAX_LINE_LENGTH];
       size_t pos;
 
       clear();
-      while (!stream.eof()) { // Reading loop
-         stream.getline(line, MAX_LINE_LENGTH);
-         //if (file.fail()) return false;
-
-         s.assign(line);
+      while (getline(stream, s)) { // Reading loop
 
          if (eof != NULL)
             if (s == eof) break;
@@ -762,7 +757,7 @@ namespace QDLIB {
             if (tpos1 != key.npos) { /* extract typedef */
                string stype;
                if (tpos2 != key.npos)
-                  stype = key.substr(tpos1+1, tpos1);
+                  stype = key.substr(tpos1+1, tpos2-tpos1-1);
                else
                   stype = key.substr(tpos1+1);
 
-- 
2.43.0


From b808e3fe607dca6cb19cc1c53b5edfcef61934e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 034/111] fix: entries that are no number left the value
 undefined

---
 src/tools/ParamContainer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 3238a83..a0902bc 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -149,6 +149,7 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
+         value = 0;
          sscanf( _param_map[name].c_str(), "%d", &value);
          return true;
       }
@@ -167,6 +168,7 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, unsigned int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
+         value = 0;
          sscanf( _param_map[name].c_str(), "%u", &value);
          return true;
       }
@@ -186,6 +188,7 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, long int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
+         value = 0;
          sscanf( _param_map[name].c_str(), "%ld", &value);
          return true;
       }
@@ -204,6 +207,7 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, size_t &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
+         value = 0;
          sscanf( _param_map[name].c_str(), "%lu", &value);
          return true;
       }
@@ -223,6 +227,7 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, double &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
+         value = 0;
          sscanf( _param_map[name].c_str(), "%lf", &value);
          return true;
       }
@@ -285,7 +290,7 @@ namespace QDLIB {
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
-         double value;
+         double value = 0;
          sscanf( vbuf[i].c_str(), "%lf", &value);
          array.push_back(value);
       }
@@ -307,7 +312,7 @@ namespace QDLIB {
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
-         int value;
+         int value = 0;
          sscanf( vbuf[i].c_str(), "%d", &value);
          array.push_back(value);
       }
@@ -329,7 +334,7 @@ namespace QDLIB {
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
-         unsigned int value;
+         unsigned int value = 0;
          sscanf( vbuf[i].c_str(), "%u", &value);
          array.push_back(value);
       }
-- 
2.43.0


From c3427a2b5d89790a9ed9268037b2f227dee55746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 035/111] fix: real numbers lost all but six digits in
 parameter sets

---
 src/tools/ParamContainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index a0902bc..c543c15 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -590,6 +590,7 @@ namespace QDLIB {
    {
      stringstream ss;
 
+     ss.precision(17);
      ss << value;
      ss >> _param_map[name];
 
@@ -620,6 +621,7 @@ namespace QDLIB {
    {
       stringstream cat;
 
+      cat.precision(17);
       for (size_t i=0; i < n; i++){
          cat << values[i];
          if (i != n-1) cat << ",";
-- 
2.43.0


From 42f4813e731886553b5e31250e492e8dba868074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 036/111] fix: trim() kept strings of blanks

---
 src/tools/helpers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/helpers.cpp b/src/tools/helpers.cpp
index 64f69f0..94f353d 100644
--- a/src/tools/helpers.cpp
+++ b/src/tools/helpers.cpp
@@ -13,9 +13,11 @@ namespace QDLIB {
       pos = s.find_first_of(" \t");          // trim from left      
       if (pos == 0){
 	 pos = s.find_first_not_of(" \t");
-	 if (pos != s.npos) {
-	    s.erase(0,pos);
+	 if (pos == s.npos) {               // only whitespaces
+	    s.clear();
+	    return s;
 	 }
+	 s.erase(0,pos);
       }
 	 
       pos = s.find_last_of(" \t");          // trim from right
-- 
2.43.0


From 065cf48c755adcdfd3e0259c1f26b7a45c10e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 037/111] fix: ORK4::Apply(dest, source) propagated the source
 and overwrote it with the destination

---
 src/qdlib/ORK4.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 8c25996..23714bc 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -46,8 +46,8 @@ namespace QDLIB
 
    void ORK4::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
    {
-      *sourcePsi = destPsi;
-      Apply(sourcePsi);
+      *destPsi = sourcePsi;
+      Apply(destPsi);
    }
 
 
-- 
2.43.0


From 7c4c31542ac65c69de75d1172f0969b67be543b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 038/111] fix: ORK4 never passed the clock to its Hamiltonian

---
 src/qdlib/ORK4.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 23714bc..b8e4053 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -40,6 +40,7 @@ namespace QDLIB
          _buf[i] = Psi->NewInstance();
       }
 
+      H->Clock(Operator::Clock());
       OPropagator::Init(Psi);
       H->Init(Psi);
    }
-- 
2.43.0


From 49e93a2d142e0a3b2a54d61d0280b64e34439449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 039/111] fix: Chebychev series stopped early for states whose
 norm was conserved by accident

---
 src/qdlib/OCheby.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index a52cf6a..014a604 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -178,7 +178,8 @@ namespace QDLIB
          /* Check for convergence */
          double nconv = abs(norm - accnorm) / norm;
 
-         if (nconv  < _prec && _offset.imag() == 0)
+         /* The norm may be conserved by accident: the coefficients must have died out too (they only decay for i > scaling*dt) */
+         if (i > _scaling * fabs(clock->Dt()) && cabs(_coeff[i]) < _prec && nconv  < _prec && _offset.imag() == 0)
             break;
 
          /* Convergence only make sense for norm preserving propagations */
@@ -283,7 +284,7 @@ namespace QDLIB
 #endif
 
          /* Check for convergence */
-         if (abs(accnorm - norm_last)/norm_last < _prec)
+         if (cabs(_coeff[i]) < _prec * cabs(_coeff[0]) && abs(accnorm - norm_last)/norm_last < _prec)
             break;
 
          norm_last = accnorm;
-- 
2.43.0


From e87fabcbecb3eef09af82e096e42b058f766ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 040/111] fix: SIL propagated states of norm other than one
 wrongly and broke down on eigenstates

The first Lanczos vector was not normalised, and the division by a vanishing
beta turned the result into NaN when the Krylov space was exhausted.
---
 src/qdlib/OSIL.cpp | 41 +++++++++++++++++++++++++++++++++--------
 src/qdlib/OSIL.h   |  1 +
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/qdlib/OSIL.cpp b/src/qdlib/OSIL.cpp
index 325e7e8..edead57 100644
--- a/src/qdlib/OSIL.cpp
+++ b/src/qdlib/OSIL.cpp
@@ -92,7 +92,15 @@ namespace QDLIB {
 
         double psinorm = Psi->Norm();
 
-        _Lzb.Set(0, Psi);
+        if (psinorm == 0) { /* Nothing to propagate */
+           _convorder = 0;
+           buf0->Retire();
+           buf1->Retire();
+           return;
+        }
+
+        MultElementsCopy((cVec*) buf1, (cVec*) Psi, 1 / psinorm);
+        _Lzb.Set(0, buf1);
         H->Apply(buf0,  _Lzb[0]);           /* H*q_0 */
         H->RecalcInternals(false);  /* Non-linear operator must not re-calculate internal WF specific values until end of recursion */
         _alpha[0] = (*(_Lzb[0]) * buf0).real();     /* a_0 = <q_0 | H | _q0 > */
@@ -103,6 +111,15 @@ namespace QDLIB {
 
         _beta[0] = _Lzb[1]->Norm();
 
+        if (_beta[0] < SIL_UNDERRUN) { /* q0 is an eigenvector */
+           _beta[0] = 0;
+           _convorder = 1;
+           H->RecalcInternals(true);
+           buf0->Retire();
+           buf1->Retire();
+           return;
+        }
+
         *(_Lzb[1]) *= 1 / _beta[0];     /* b0 = Norm(q1) = <q1 | H | q0 > */
 
         _convorder = 2;
@@ -116,14 +133,12 @@ namespace QDLIB {
            err = cabs(err);
 
 
-           if (err > psinorm){
+           if (err > 1){
               cout << "Warning: Lanczos expansion becomes unstable: " << err << endl;
               //break;
            }
-           _convorder++;
-
            if (it == _order - 1)
-              cout << "Warning: Lanczos expansion is not converged: " << err << " > " << _err * psinorm << endl;
+              cout << "Warning: Lanczos expansion is not converged: " << err << " > " << _err << endl;
 
             /* buf0 = H * q_i-1 */
             H->Apply(_Lzb[it], _Lzb[it-1]);
@@ -137,7 +152,13 @@ namespace QDLIB {
 
             _beta[it-1] = _Lzb[it]->Norm();
 
+            if (_beta[it-1] < SIL_UNDERRUN) { /* Krylov space is exhausted */
+               _beta[it-1] = 0;
+               break;
+            }
+
             *(_Lzb[it]) *= 1 / _beta[it-1];
+            _convorder++;
 
             /* Check orthogonality of LZB */
             if ( it > 10){
@@ -147,10 +168,10 @@ namespace QDLIB {
             }
 
             /* convergence reached */
-            if (err < _err * psinorm) break;
+            if (err < _err) break;
         }
 
-        _alpha[it-1] = H->Expec(_Lzb[it-1]);
+        _alpha[_convorder-1] = H->Expec(_Lzb[_convorder-1]);
         H->RecalcInternals(true); /* turn it on again */
 
         buf0->Retire();
@@ -164,6 +185,10 @@ namespace QDLIB {
      */
     void OSIL::DiagLZB(WaveFunction* Psi)
     {
+        if (_convorder == 0) return;
+
+        double psinorm = Psi->Norm();
+
         /* Diag Lanczos Hamiltonian */
         LAPACK::TriDiagHermitian(&_alpha, &_beta, &_Z, _order);
 
@@ -180,7 +205,7 @@ namespace QDLIB {
         *Psi *= _vect[0];
 
         for (int i = 1; i < _convorder; i++){
-            AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i]);
+            AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i] * psinorm);
         }
     }
 
diff --git a/src/qdlib/OSIL.h b/src/qdlib/OSIL.h
index 46cf58d..1a1dfe9 100644
--- a/src/qdlib/OSIL.h
+++ b/src/qdlib/OSIL.h
@@ -10,6 +10,7 @@
 
 #define SIL_DEF_ORDER 20
 #define SIL_DEF_ERR 1e-12
+#define SIL_UNDERRUN 1e-11
 
 namespace QDLIB {
 
-- 
2.43.0


From 2f50877788beadb53df5893b3b11da47373b1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 041/111] fix: Arnoldi propagated states of norm other than one
 wrongly

The first Krylov vector was not normalised, and the order of the previous step
was kept when the Krylov space was exhausted after the first vector.
---
 src/qdlib/OArnoldi.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/OArnoldi.cpp b/src/qdlib/OArnoldi.cpp
index a39e7ff..e949266 100644
--- a/src/qdlib/OArnoldi.cpp
+++ b/src/qdlib/OArnoldi.cpp
@@ -90,11 +90,19 @@ namespace QDLIB
 
       double PsiNorm = Psi->Norm();
 
-      *buf1 = Psi;
+      if (PsiNorm == 0) { /* Nothing to propagate */
+         _order = 0;
+         buf0->Retire();
+         buf1->Retire();
+         return;
+      }
+
+      MultElementsCopy((cVec*) buf1, (cVec*) Psi, 1 / PsiNorm);
 
       _Lzb.Set(0, buf1);
 
       _tHA = dcomplex(0);
+      _order = 1;
 
       for (int it = 1; it < _maxorder; it++) {
          H->Apply(buf0, _Lzb[it-1]);
@@ -121,12 +129,12 @@ namespace QDLIB
          _order = it+1;
 
          /* Estimate the error of the next L-vector */
-         dcomplex err = pow(clock->Dt(), it-2) * _tHA(1,0) * PsiNorm;
+         dcomplex err = pow(clock->Dt(), it-2) * _tHA(1,0);
          for (int i=1; i < it - 2; i++){
             err *=  _tHA(i+1,i) / double(i);
          }
 
-         if (cabs(err) > PsiNorm)
+         if (cabs(err) > 1)
            cout << "Warning: Lanczos expansion becomes unstable: " << cabs(err) << endl;
 
          if (cabs(err) < _conv) break;
@@ -154,6 +162,8 @@ namespace QDLIB
 
    void OArnoldi::DiagLZB()
    {
+      if (_order == 0) return;
+
       /* Diag Arnoldi Hamiltonian */
       _evals.newsize(_order);
       _ZL.newsize(_order,_order);
@@ -168,6 +178,10 @@ namespace QDLIB
     */
    void OArnoldi::Propagate(WaveFunction* Psi)
    {
+      if (_order == 0) return;
+
+      double PsiNorm = Psi->Norm();
+
       _vect.newsize(_order);
       _vec0.newsize(_order);
       _expHD.newsize(_order);
@@ -194,7 +208,7 @@ namespace QDLIB
         cout << "Warning: Arnoldi series expansion is not converged: " << last <<  " > " << _conv << endl;
 
       for (int i = 1; i < _order; i++) {
-         AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i]);
+         AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i] * PsiNorm);
       }
    }
 
-- 
2.43.0


From 902ddabeb95a3a919886a17620e2d541c9f80c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 042/111] fix: Chebychev convergence check demanded more terms
 than ordinary convergence needs

Follow-up to the check of the coefficients: a norm converged to prec leaves
coefficients of up to about 100*prec.
---
 src/qdlib/OCheby.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index 014a604..cac2ff2 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -179,7 +179,7 @@ namespace QDLIB
          double nconv = abs(norm - accnorm) / norm;
 
          /* The norm may be conserved by accident: the coefficients must have died out too (they only decay for i > scaling*dt) */
-         if (i > _scaling * fabs(clock->Dt()) && cabs(_coeff[i]) < _prec && nconv  < _prec && _offset.imag() == 0)
+         if (i > _scaling * fabs(clock->Dt()) && cabs(_coeff[i]) < 1000 * _prec && nconv  < _prec && _offset.imag() == 0)
             break;
 
          /* Convergence only make sense for norm preserving propagations */
@@ -284,7 +284,7 @@ namespace QDLIB
 #endif
 
          /* Check for convergence */
-         if (cabs(_coeff[i]) < _prec * cabs(_coeff[0]) && abs(accnorm - norm_last)/norm_last < _prec)
+         if (cabs(_coeff[i]) < 1000 * _prec * cabs(_coeff[0]) && abs(accnorm - norm_last)/norm_last < _prec)
             break;
 
          norm_last = accnorm;
-- 
2.43.0


From 1ee0bc4c491434395a343bb56f9d1a15f16ca3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 043/111] fix: exponential of the Raman operator lacked the
 factor 1/2 of its action

---
 src/qdlib/OGridRaman.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 598a97c..5ee6f20 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -83,7 +83,7 @@ namespace QDLIB {
    void OGridRaman::InitExponential (cVec *exp, dcomplex c)
    {
       if (_dspace == NULL) InitDspace();
-      ExpElements(exp, _dspace, -1 * c * GetLaser(0)->Get() * GetLaser(1)->Get());
+      ExpElements(exp, _dspace, -.5 * c * GetLaser(0)->Get() * GetLaser(1)->Get());
    }
 
 }
-- 
2.43.0


From 3b6902c778769bd7b4cae538ca828b0e8b39f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 044/111] fix: copies of a laser field lost its scaling factor

---
 src/qdlib/Laser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 49a2cbc..93f6d29 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -157,6 +157,7 @@ namespace QDLIB {
       _clock = laser._clock;
        _params = laser._params;
       _dt = laser._dt;
+      _scale = laser._scale;
       if (_spectrum != NULL){
          delete _spectrum;
          _spectrum = NULL;
-- 
2.43.0


From 9ca65e5225525e227d16ed8075962099f1fc85c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 045/111] fix: grid sums ignored the field of laser operators
 and the clock

---
 src/qdlib/OGridDipole.h |  2 ++
 src/qdlib/OGridRaman.h  |  2 ++
 src/qdlib/OGridSum.cpp  | 18 +++++++++++++-----
 src/qdlib/OGridSum.h    |  2 ++
 src/qdlib/OGridsystem.h |  3 +++
 5 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/OGridDipole.h b/src/qdlib/OGridDipole.h
index 6041d1f..b00462a 100644
--- a/src/qdlib/OGridDipole.h
+++ b/src/qdlib/OGridDipole.h
@@ -37,6 +37,8 @@ namespace QDLIB
 
          virtual void UpdateTime();
 
+         virtual double Weight() { return -GetLaser()->Get(); }
+
          virtual dcomplex Emax();
 
 	 virtual dcomplex Emin();
diff --git a/src/qdlib/OGridRaman.h b/src/qdlib/OGridRaman.h
index ea19d5c..f327fce 100644
--- a/src/qdlib/OGridRaman.h
+++ b/src/qdlib/OGridRaman.h
@@ -37,6 +37,8 @@ namespace QDLIB
 
          virtual void UpdateTime();
 
+         virtual double Weight() { return -.5 * GetLaser(0)->Get() * GetLaser(1)->Get(); }
+
          virtual dcomplex Emax();
 
          virtual dcomplex Emin();
diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index 15729f6..e7e3b8d 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -30,7 +30,7 @@ namespace QDLIB {
       
       _O[0]->UpdateTime();
       for (int i=0; i < dVec::size(); i++)      /* Loop over grid points, first operator */
-	 (*((dVec*) this))[i] = (*(_O[0]))[i];
+	 (*((dVec*) this))[i] = (*(_O[0]))[i] * _O[0]->Weight();
       
       
       int k;
@@ -38,7 +38,7 @@ namespace QDLIB {
 	 for (k=1; k < _size; k++) {           /* Loop over operators */
 	    _O[k]->UpdateTime();
 	    for (int i=0; i < dVec::size(); i++)   /* Loop over grid points */
-	       (*this)[i] += (*(_O[k]))[i];
+	       (*this)[i] += (*(_O[k]))[i] * _O[k]->Weight();
 	 }
       }
       _isUpTodate = true;
@@ -58,6 +58,14 @@ namespace QDLIB {
 	 throw ( EIncompatible("Operator and WF differ in size") );
    }
 
+   void OGridSum::Clock( QDClock *cl )
+   {
+      clock = cl;
+      for (int i=0; i < _size; i++)
+	 _O[i]->Clock(cl);
+      _isUpTodate = false;
+   }
+
    void OGridSum::UpdateTime( )
    {
       if (_size > 0) _Update();
@@ -112,14 +120,14 @@ namespace QDLIB {
    
    void OGridSum::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
    {   
-      if(! _isUpTodate) _Update( );
+      if(! _isUpTodate || _isTimedependent) _Update( );
         
       MultElements( (cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this);
    }
 
    void OGridSum::Apply( WaveFunction * Psi )
    {   
-      if(! _isUpTodate) _Update( );
+      if(! _isUpTodate || _isTimedependent) _Update( );
       
       MultElements( (cVec*) Psi, (dVec*) this);
    }
@@ -189,7 +197,7 @@ namespace QDLIB {
 	 throw ( EParamProblem("Sum Operator can only take operators with same grid size") );
       
       if (O->isTimeDep()) _isTimedependent = true;
-      O->Clock(clock);
+      if (clock != NULL) O->Clock(clock);
       
       _O[_size] = O;
       _size++;
diff --git a/src/qdlib/OGridSum.h b/src/qdlib/OGridSum.h
index 7cbaaa5..d174cd0 100644
--- a/src/qdlib/OGridSum.h
+++ b/src/qdlib/OGridSum.h
@@ -50,6 +50,8 @@ namespace QDLIB {
 	 
 	 virtual const string& Name();
 	 
+	 virtual void Clock(QDClock *cl);
+
 	 virtual void UpdateTime();
 	 
 	 virtual dcomplex MatrixElement(WaveFunction *PsiBra, WaveFunction *PsiKet);
diff --git a/src/qdlib/OGridsystem.h b/src/qdlib/OGridsystem.h
index 736cf65..3a08c37 100644
--- a/src/qdlib/OGridsystem.h
+++ b/src/qdlib/OGridsystem.h
@@ -33,6 +33,9 @@ namespace QDLIB
 
          virtual bool Valid(WaveFunction *Psi);
 
+         /** Factor of the grid values in the action of the operator at the current time. */
+         virtual double Weight() { return 1; }
+
          /* DSpace interface */
          virtual void InitDspace();
          virtual Transform* Transformation()
-- 
2.43.0


From c487a8177e950c6fb89527931c69bcdbc891b704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 046/111] fix: power spectrum of a laser field was written
 beyond its end

---
 src/qdlib/Laser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 93f6d29..84424d5 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -67,7 +67,7 @@ namespace QDLIB {
       Spectrum();
       
       dVec *power = new dVec(_clock->Steps()/2+1);
-      for (int i=0; i < dVec::size(); i++){
+      for (int i=0; i < power->size(); i++){
 	 (*power)[i] = cabs((*_spectrum)[i]);
       }
       return power;
-- 
2.43.0


From 834ce2d6776c60e417779b4c06599da5428e9367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 047/111] fix: vector potential and pulse energy of a laser
 used the wrong scaling

The vector potential ignored the factor, the energy is quadratic in it.
---
 src/qdlib/Laser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 84424d5..d83850f 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -148,7 +148,7 @@ namespace QDLIB {
          sum += (*this)[t];
       }
 
-      return sum * _dt;
+      return sum * _scale * _dt;
    }
 
    Laser& Laser::operator =(const Laser &laser)
@@ -179,7 +179,7 @@ namespace QDLIB {
       for(int i=0; i < size(); i++){
 	 d += (*this)[i] * (*this)[i];
       }
-      d *= _scale;
+      d *= _scale * _scale;
       return ( 137.0359996  / (4 * M_PI) * d * _dt );
       /*       c0 in au          eps_0 in au             */
    }
-- 
2.43.0


From fd86ff17d4c55b09e5c805673c47ffd54ec2a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 048/111] fix: spectrum of a laser used the memory of the
 previous field after a resize

---
 src/qdlib/Laser.cpp | 28 ++++++++++++++++++++--------
 src/qdlib/Laser.h   |  2 ++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index d83850f..12a778b 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -18,6 +18,22 @@ namespace QDLIB {
       
    }
 
+   /**
+    * Remove the spectrum and its plans.
+    * They refer to the memory of the field and thus become invalid with it.
+    */
+   void Laser::ClearSpectrum()
+   {
+      if (_spectrum != NULL){
+         delete _spectrum;
+         _spectrum = NULL;
+      }
+      if (_fft != NULL){
+         delete _fft;
+         _fft = NULL;
+      }
+   }
+
    Laser::FileLaser& Laser::File( )
    {
       return _file;
@@ -46,6 +62,7 @@ namespace QDLIB {
 	 throw ( EParamProblem("The laser is missing the number of time steps") );
       _params.GetValue("Nt", Nt);
       
+      ClearSpectrum();
       dVec::newsize(Nt);
    }
 
@@ -158,14 +175,7 @@ namespace QDLIB {
        _params = laser._params;
       _dt = laser._dt;
       _scale = laser._scale;
-      if (_spectrum != NULL){
-         delete _spectrum;
-         _spectrum = NULL;
-      }
-      if (_fft != NULL){
-         delete _fft;
-         _fft=NULL;
-      }
+      ClearSpectrum();
       return *this;
    }
 
@@ -200,6 +210,7 @@ namespace QDLIB {
     */
    void Laser::Nt(int size)
    {
+      ClearSpectrum();
       dVec::newsize(size);
       _params.SetValue("Nt",size) ;
    }
@@ -234,6 +245,7 @@ namespace QDLIB {
 
       _dt = dt;
 
+      ClearSpectrum();
       newsize(size);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
diff --git a/src/qdlib/Laser.h b/src/qdlib/Laser.h
index 9cb6929..a04747b 100644
--- a/src/qdlib/Laser.h
+++ b/src/qdlib/Laser.h
@@ -31,6 +31,8 @@ namespace QDLIB
          ParamContainer _params;
 
          FileLaser _file;
+
+         void ClearSpectrum();
       public:
 
          Laser();
-- 
2.43.0


From e11152baf5ab9f4644abb41bd3cf2b4cd2a64344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 049/111] fix: two size limits of the same name corrupted sums
 of operators

OGridSum.h redefined the MAX_OPS of OList.h, so that every file which
included it first allocated sums and propagators too small.
---
 src/qdlib/OGridSum.cpp | 8 ++++----
 src/qdlib/OGridSum.h   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index e7e3b8d..8158b21 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -11,14 +11,14 @@ namespace QDLIB {
    OGridSum::OGridSum()
    : OGridSystem(), _name("OGridSum"), _size(0), _isUpTodate(false)
    {
-      for (int i=0; i < MAX_OPS; i++)
+      for (int i=0; i < MAX_GRID_OPS; i++)
 	 _O[i] = NULL;
    }
    
    
    OGridSum::~OGridSum()
    {
-      for (int i=0; i < MAX_OPS; i++)
+      for (int i=0; i < MAX_GRID_OPS; i++)
 	 if (_O[i] != NULL) DELETE_OP(_O[i]);
    }
 
@@ -154,7 +154,7 @@ namespace QDLIB {
             
       /* copy our stuff */
       _size = org->_size;
-      for (int i=0; i< MAX_OPS; i++)
+      for (int i=0; i< MAX_GRID_OPS; i++)
 	 _O[i] = org->_O[i];
       _isUpTodate = org->_isUpTodate;
       
@@ -184,7 +184,7 @@ namespace QDLIB {
     */
    void OGridSum::Add( OGridSystem * O )
    {
-      if (_size >= MAX_OPS) {
+      if (_size >= MAX_GRID_OPS) {
 	 throw ( EOverflow("Maximum numbers of operators reached") );
       }
       if (O == NULL){
diff --git a/src/qdlib/OGridSum.h b/src/qdlib/OGridSum.h
index d174cd0..6e32093 100644
--- a/src/qdlib/OGridSum.h
+++ b/src/qdlib/OGridSum.h
@@ -7,7 +7,7 @@
 
 #include "qdlib/OGridsystem.h"
 
-#define MAX_OPS 16
+#define MAX_GRID_OPS 16
 
 namespace QDLIB {
 
@@ -26,7 +26,7 @@ namespace QDLIB {
       private:
 	 string _name;
 	 int _size;
-	 OGridSystem* _O[MAX_OPS];
+	 OGridSystem* _O[MAX_GRID_OPS];
 	 bool _isUpTodate;
 	 
 	 void _Update();
-- 
2.43.0


From 10e930fb1dcfa8a42546c610df0efe76e6b1b365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 050/111] fix: split operator used the normalization of a
 transformation before it was known

---
 src/qdlib/OGSPO.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index 2fd0f6e..b53a262 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -35,10 +35,6 @@ namespace QDLIB
          if ((_ops[i]->isTimeDep() && _laststep != clock->TimeStep()) || _laststep == -1
                   || _lastexp.real() != Exponent().real() || _lastexp.imag() != Exponent().imag()) {
             _ops[i]->InitExponential(&(_exp[i]), Exponent() * sf);
-            /* Include transform normalization here */
-            if (_ops[i]->Transformation() != NULL){
-               _exp[i] *= _ops[i]->Transformation()->Normalization();
-            }
          }
          sf = 0.5; /* All other elements are outer ones => factor 1/2 */
       }
@@ -117,24 +113,24 @@ namespace QDLIB
 
       /* e^1/2B e^1/2C ..., apply from right */
       for (int i = _spoLen - 1; i > 0; i--) {
-         if (_ops[i]->Transformation() != NULL)
+         if (_ops[i]->Transformation() != NULL) {
             _ops[i]->Transformation()->Forward(Psi);
-
-         MultElements((cVec*) Psi, (cVec*) &(_exp[i]));
-
-         if (_ops[i]->Transformation() != NULL)
+            /* The normalization is known only after a transformation */
+            MultElements((cVec*) Psi, (cVec*) &(_exp[i]), _ops[i]->Transformation()->Normalization());
             _ops[i]->Transformation()->Backward(Psi);
+         } else
+            MultElements((cVec*) Psi, (cVec*) &(_exp[i]));
       }
 
       /* ... e^1/2C e^1/2B e^A , apply from right */
       for (int i = 0; i < _spoLen; i++) {
-         if (_ops[i]->Transformation() != NULL)
+         if (_ops[i]->Transformation() != NULL) {
             _ops[i]->Transformation()->Forward(Psi);
-
-         MultElements((cVec*) Psi, (cVec*) &(_exp[i]));
-
-         if (_ops[i]->Transformation() != NULL)
+            /* The normalization is known only after a transformation */
+            MultElements((cVec*) Psi, (cVec*) &(_exp[i]), _ops[i]->Transformation()->Normalization());
             _ops[i]->Transformation()->Backward(Psi);
+         } else
+            MultElements((cVec*) Psi, (cVec*) &(_exp[i]));
       }
    }
 
-- 
2.43.0


From 7300c997a94ff55589ad9126c4cd70e926249669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 051/111] fix: detection of the file format read beyond the
 header of a raw file

---
 src/tools/FileSingle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index dc56c4a..8f8fe1c 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -1059,7 +1059,7 @@ namespace QDLIB
 
       _sin->read(reinterpret_cast<char*>(&intro), sizeof(PbufHeader));
 
-      if (string(intro.magic) != PBUF_MAGIC)
+      if (_sin->gcount() != sizeof(PbufHeader) || memcmp(intro.magic, PBUF_MAGIC, sizeof(PBUF_MAGIC)) != 0)
          throw(EIOError("Malformated stream. No stream magic found."));
 
       if ((unsigned int) intro.version != PBUF_VERSION)
-- 
2.43.0


From b0516db37f18efc3f5a541aa8f81c16e6ebb1e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 052/111] fix: wave functions of several states could not be
 read in the raw format

Their container consists of a meta file only.
---
 src/tools/FileSingle.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 8f8fe1c..b55c183 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -776,8 +776,10 @@ namespace QDLIB
 
       file.open(name.c_str());
 
-      if (!file.is_open())
-           throw(EIOError("Can not open binary file for reading", name));
+      if (!file.is_open()) { /* A container without data of its own. Reading data reports the missing file. */
+         MetaData.header.set_compression(FileSingleHeader_Compression_UNCOMPRESSED);
+         return MetaData.header.compression();
+      }
 
       /* Let's check if we find a compression tag */
       char lastbytes[ZLIB_MLEN];
@@ -1119,10 +1121,8 @@ namespace QDLIB
          return;
       }
 
-      OpenINStream();
-
       try {
-         CheckIntroFromStream();
+         CheckIntroFromStream(); /* opens the file */
          _type = stream;
       } catch (EIOError& e) { /* to fail means it must be _something else_ */
          if (_our_in_stream) {
-- 
2.43.0


From 4c43914b888a0c8eb8f4af845b8c9a239caafb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 053/111] fix: incompressible data could not be written to
 compressed files

---
 src/tools/FileSingle.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index b55c183..70a2d76 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -605,7 +605,7 @@ namespace QDLIB
       if (deflateInit(&strm, 4) != Z_OK) /* Init stream */
          throw(EIOError("libz init failed"));
 
-      _buffer_size = data->sizeBytes();
+      _buffer_size = compressBound(data->sizeBytes()); /* compressed data can be larger than the original */
       Memory::Instance().Align((void**) &_buffer, _buffer_size);
 
       /* input buffer */
@@ -690,7 +690,7 @@ namespace QDLIB
       if (BZ2_bzCompressInit(&strm, 4, 0, 0) != BZ_OK) /* Init stream */
          throw(EIOError("libz init failed"));
 
-      _buffer_size = data->sizeBytes();
+      _buffer_size = data->sizeBytes() + data->sizeBytes() / 100 + 600; /* upper bound given by libbz2 */
       Memory::Instance().Align((void**) &_buffer, _buffer_size);
 
       /* input buffer */
-- 
2.43.0


From ced4fa7669dea86b99d49d6907a8638fa608b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 054/111] fix: meta files of level wave functions lacked the
 size

---
 src/qdlib/WFLevel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 2d795a6..8611f9d 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -18,7 +18,10 @@ namespace QDLIB {
    
    WFLevel::WFLevel(): _name("WFLevel")   {}
    
-   WFLevel::WFLevel(size_t size) : WaveFunction(size), _name("WFLevel")   {}
+   WFLevel::WFLevel(size_t size) : WaveFunction(size), _name("WFLevel")
+   {
+      _params.SetValue("size", int(size));
+   }
 
    WFLevel::~WFLevel() {}
    
@@ -156,6 +159,7 @@ namespace QDLIB {
          throw( EIOError("Can't read WFLevel: wrong header") );
 
       newsize(sizee);
+      _params.SetValue("size", int(sizee));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeb);
    }
-- 
2.43.0


From 69e71f6d811ac0891ed5ea4c867bc6ce64fe1b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 055/111] fix: objects read from a stream lost their grid in
 the raw format

---
 src/qdlib/OGridsystem.cpp  | 2 ++
 src/qdlib/WFGridSystem.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/qdlib/OGridsystem.cpp b/src/qdlib/OGridsystem.cpp
index 08b7bb7..aa5f888 100644
--- a/src/qdlib/OGridsystem.cpp
+++ b/src/qdlib/OGridsystem.cpp
@@ -93,6 +93,8 @@ namespace QDLIB {
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+
+      grid_sys.DumpParams(_params);
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index d8fdf25..9cf7db5 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -186,6 +186,8 @@ namespace QDLIB {
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+
+      grid_sys.DumpParams(_params);
    }
 
 } /* namespace QDLIB */
-- 
2.43.0


From f921b07d5d07dbc56642c814259a8f16965d21e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 056/111] fix: matrices and laser fields read from a stream
 lost their size in the raw format

---
 src/qdlib/Laser.cpp            | 2 ++
 src/qdlib/OHermitianMatrix.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 12a778b..f28a928 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -247,6 +247,8 @@ namespace QDLIB {
 
       ClearSpectrum();
       newsize(size);
+      _params.SetValue("dt", _dt);
+      _params.SetValue("Nt", int(size));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
    }
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index 7087438..deb0a38 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -295,6 +295,7 @@ namespace QDLIB {
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
 
       newsize(size, size);
+      _params.SetValue("size", int(size));
       delete _dspace;
       _dspace = NULL;
       _valid = false;
-- 
2.43.0


From 87f3cdd28184459c2087aae8e9e923d10b167182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 057/111] fix: incomplete streams and data files were read as
 if they were complete

---
 src/qdlib/Laser.cpp            | 11 +++++++----
 src/qdlib/OGridsystem.cpp      | 14 ++++++++------
 src/qdlib/OHermitianMatrix.cpp |  6 ++++--
 src/qdlib/WFGridSystem.cpp     | 14 ++++++++------
 src/qdlib/WFLevel.cpp          |  5 +++--
 src/qdlib/WFMultistate.cpp     |  3 ++-
 src/tools/FileSingle.h         | 10 +++++++++-
 7 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index f28a928..678b765 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -230,15 +230,17 @@ namespace QDLIB {
 
    void Laser::DeSerialize (std::istream&is)
    {
-      uint64_t size;
+      uint64_t size = 0;
 
-      is.read(reinterpret_cast<char*>(&size), sizeof(size));
+      if (! is.read(reinterpret_cast<char*>(&size), sizeof(size)) )
+         throw(EIOError("Can't read Laser: data is incomplete"));
 
       if (size == 0)
          throw(EParamProblem("Laser field has zero size"));
 
       double dt;
-      is.read(reinterpret_cast<char*>(&dt), sizeof(dt));
+      if (! is.read(reinterpret_cast<char*>(&dt), sizeof(dt)) )
+         throw(EIOError("Can't read Laser: data is incomplete"));
 
       if (dt <= 0)
          throw(EParamProblem("Laser field got a non-sense dt: ", dt));
@@ -250,7 +252,8 @@ namespace QDLIB {
       _params.SetValue("dt", _dt);
       _params.SetValue("Nt", int(size));
 
-      is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (! is.read(reinterpret_cast<char*>(begin(0)), sizeBytes()) )
+         throw(EIOError("Can't read Laser: data is incomplete"));
    }
    
 }
diff --git a/src/qdlib/OGridsystem.cpp b/src/qdlib/OGridsystem.cpp
index aa5f888..a9f7ac3 100644
--- a/src/qdlib/OGridsystem.cpp
+++ b/src/qdlib/OGridsystem.cpp
@@ -80,19 +80,21 @@ namespace QDLIB {
       // read header
       uint32_t size;
 
-      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
+      if (! is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t)) )
+         throw(EIOError("Can't read Operator from stream"));
 
       char* buf = new char[size];
-      is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
-         throw(EIOError("Can't read WF from stream"));
-
+      bool valid = is.read(buf, size) && grid_sys.header.ParseFromArray(buf, size);
       delete[] buf;
 
+      if (!valid)
+         throw(EIOError("Can't read Operator from stream"));
+
       newsize(GridSystem::Size());
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
-      is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (! is.read(reinterpret_cast<char*>(begin(0)), sizeBytes()) )
+         throw(EIOError("Can't read Operator from stream: data is incomplete"));
 
       grid_sys.DumpParams(_params);
    }
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index deb0a38..34859e4 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -292,7 +292,8 @@ namespace QDLIB {
       uint32_t size;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
-      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
+      if (! is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t)) )
+         throw(EIOError("Can't read Operator from stream"));
 
       newsize(size, size);
       _params.SetValue("size", int(size));
@@ -300,7 +301,8 @@ namespace QDLIB {
       _dspace = NULL;
       _valid = false;
 
-      is.read(reinterpret_cast<char*>(begin()), sizeBytes());
+      if (! is.read(reinterpret_cast<char*>(begin()), sizeBytes()) )
+         throw(EIOError("Can't read Operator from stream: data is incomplete"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 9cf7db5..6329840 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -172,20 +172,22 @@ namespace QDLIB {
       // read header
       uint32_t size;
 
-      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
-
-      char* buf = new char[size];
-      is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
+      if (! is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t)) )
          throw(EIOError("Can't read WF from stream"));
 
+      char* buf = new char[size];
+      bool valid = is.read(buf, size) && grid_sys.header.ParseFromArray(buf, size);
       delete[] buf;
 
+      if (!valid)
+         throw(EIOError("Can't read WF from stream"));
+
       // Read data
       newsize(GridSystem::Size());
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
-      is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (! is.read(reinterpret_cast<char*>(begin(0)), sizeBytes()) )
+         throw(EIOError("Can't read WF from stream: data is incomplete"));
 
       grid_sys.DumpParams(_params);
    }
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 8611f9d..2e9149d 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -155,13 +155,14 @@ namespace QDLIB {
       is.read(reinterpret_cast<char*>(&sizee), sizeof(sizee));
       is.read(reinterpret_cast<char*>(&sizeb), sizeof(sizeb));
 
-      if (sizee * sizeof(dcomplex) != sizeb)
+      if (!is || sizee * sizeof(dcomplex) != sizeb)
          throw( EIOError("Can't read WFLevel: wrong header") );
 
       newsize(sizee);
       _params.SetValue("size", int(sizee));
 
-      is.read(reinterpret_cast<char*>(begin(0)), sizeb);
+      if (! is.read(reinterpret_cast<char*>(begin(0)), sizeb) )
+         throw( EIOError("Can't read WFLevel: data is incomplete") );
    }
 } /* namespace QDLIB */
 
diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 204c2ee..b316299 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -293,7 +293,8 @@ namespace QDLIB
    {
       // The info here is useless right now. Ignore it.
       uint32_t states = 0;
-      is.read(reinterpret_cast<char*>(&states), sizeof(uint32_t));
+      if (! is.read(reinterpret_cast<char*>(&states), sizeof(uint32_t)) )
+         throw( EIOError("Can't read WFMultistate: data is incomplete") );
    }
 
 }
diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 70a2d76..8c4cfa8 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -1080,9 +1080,15 @@ namespace QDLIB
 
       /* message/meta data length */
       _sin->read(reinterpret_cast<char*>(&mlen), sizeof(uint32_t));
+      if (_sin->gcount() != sizeof(uint32_t))
+         throw(EIOError("Error reading meta data from stream"));
 
       char* buf = new char[mlen];
       _sin->read(reinterpret_cast<char*>(buf), mlen);
+      if ((size_t) _sin->gcount() != mlen){
+         delete[] buf;
+         throw(EIOError("Error reading meta data from stream"));
+      }
 
       // Parse header
       MetaData.ClearAll();
@@ -1160,8 +1166,10 @@ namespace QDLIB
 
                _sin->read(inbuf, MetaData.header.payload_size());
 
-               if ( (size_t) _sin->gcount() != MetaData.header.payload_size() )
+               if ( (size_t) _sin->gcount() != MetaData.header.payload_size() ){
+                  delete[] inbuf;
                   throw(EIOError("Reading from stream failed"));
+               }
 
                ArrayInputStream arrin(inbuf, MetaData.header.payload_size());
                GzipInputStream gzip(&arrin);
-- 
2.43.0


From fe9fc19124e15bc5e1d873e5b5669eff2d31cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 058/111] fix: failed writing to files went unnoticed

---
 src/tools/FileSingle.h       | 19 +++++++++++++++----
 src/tools/ParamContainer.cpp |  4 ++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 8c4cfa8..99d5647 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -812,7 +812,7 @@ namespace QDLIB
       if (!_drop_meta || _counter != _counter_last) {
 
          if (!p.WriteToFile(_name + METAFILE_SUFFIX))
-            EIOError("Can not write meta file");
+            throw(EIOError("Can not write meta file", _name));
       }
    }
 
@@ -954,14 +954,14 @@ namespace QDLIB
       /* Create file if needed */
       if (_sout == NULL){
          ofstream* out = new ofstream(); // TODO: Fix this. don't go via an ofstream
-         _our_out_stream = true;
 
          string name;
          BuildDataFileName(name);
          out->open(name.c_str(), ios_base::binary);
 
          if (! out->is_open() ){
-            FinalizeOutStream();
+            delete out;
+            _our_out_stream = false;
             throw(EIOError("Can not open binary stream for writing", name));
          }
          _sout = out;
@@ -982,6 +982,9 @@ namespace QDLIB
    void FileSingle<C>::WriteDataToStream(const string &data_buf)
    {
       _sout->write(reinterpret_cast<const char*>(data_buf.data()), data_buf.size());
+
+      if (_sout->fail())
+         throw(EIOError("Can't write data to stream"));
    }
 
    /**
@@ -992,9 +995,14 @@ namespace QDLIB
    {
       if (_our_out_stream){
          dynamic_cast<ofstream*>(_sout)->close();
+         bool failed = _sout->fail(); /* buffered data are written here */
          delete _sout;
          _sout = NULL;
          _our_out_stream = false;
+         _intro_written = false;
+
+         if (failed)
+            throw(EIOError("Can't write data to stream", _name));
       }
 
       _intro_written = false;
@@ -1318,7 +1326,8 @@ namespace QDLIB
       MetaData.header.set_class_(data->Name());
 
       pm.SetValue("CLASS", data->Name());
-      pm.WriteToFile(_name + METAFILE_SUFFIX);
+      if (!pm.WriteToFile(_name + METAFILE_SUFFIX))
+         throw(EIOError("Can not write meta file", _name));
    }
 
    /**
@@ -1371,6 +1380,8 @@ namespace QDLIB
       }
 
       file.close();
+      if (file.fail()) /* buffered data are written here */
+         throw(EIOError("Can not write binary file", name));
    }
 
    /**
diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index c543c15..ed0ada1 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -848,12 +848,12 @@ namespace QDLIB {
       ofstream file;
 
       file.open(name.c_str(),  ios_base::out);
-      if( file.bad() ) return false;
+      if( file.fail() ) return false;
 
       Write(file, with_types);
 
       file.close();
-      if( file.bad() ) return false;
+      if( file.fail() ) return false;
 
       return true;
    }
-- 
2.43.0


From 65c294f57d74927c2297f0ef441bd38b0f00c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 059/111] fix: buffers of wave functions could release
 functions still in use

---
 src/qdlib/WFBuffer.cpp | 64 +++++++++++++++++++++++++-----------------
 src/qdlib/WFBuffer.h   |  4 +--
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index c7389d6..e8743ae 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -106,26 +106,25 @@ namespace QDLIB {
          if ( _LastAccess[i] == mempos) return true;
       }
 
-      for (size_t i=0; i < _buf.size(); i++){
-         if (_buf[i].Locked) return true;
-      }
-
-      return false;
+      return _buf[mempos].Locked;
    }
    
    /**
     * Copy a membuf element into the disk buffer.
+    * \param keep position which has to stay in memory
     */
-   void WFBuffer::_MoveToDisk()
+   void WFBuffer::_MoveToDisk(size_t keep)
    {
       for (size_t i = _buf.size()-1; i > 0; i--){ /* walk through membuf - backwards */
-         if (_buf[i].Psi != NULL && !_buf[i].Locked){ /* This is an Element in memory */
+         if (_buf[i].Psi != NULL && i != keep && !_IsLocked(i)){ /* This is an Element in memory */
 
             // Dump to file
             ofstream file;
             file.open(_GetFileName(i).c_str(), ios_base::trunc);
-            _buf[i].Psi->Serialize(file); // TODO: Error checking!!
+            _buf[i].Psi->Serialize(file);
             file.close();
+            if (file.fail())
+               throw(EIOError("WFBuffer: can't write buffer file: ", _GetFileName(i)));
 
             // Book keeping
             _ondisk++;
@@ -150,7 +149,15 @@ namespace QDLIB {
 
       ifstream file;
       file.open(_GetFileName(pos).c_str());
-      _buf[pos].Psi->DeSerialize(file); // TODO: Error checking!!
+      try {
+         _buf[pos].Psi->DeSerialize(file);
+         if (file.fail())
+            throw(EIOError("WFBuffer: can't read buffer file: ", _GetFileName(pos)));
+      } catch (Exception& e) {
+         DELETE_WF(_buf[pos].Psi);
+         _buf[pos].Psi = NULL;
+         throw;
+      }
       file.close();
       
       _ondisk--;
@@ -164,7 +171,7 @@ namespace QDLIB {
       size_t oldsize = _buf.size();
 
       if (oldsize > size) { /* Reduce size */
-         for (size_t i=oldsize-1; i >= size; i--){
+         for (size_t i=oldsize; i-- > size; ){
             if (_buf[i].Psi != NULL){ /* Remove wf from memory */
                DELETE_WF(_buf[i].Psi);
             }
@@ -180,6 +187,7 @@ namespace QDLIB {
          /* Clear all locks */
          _LastAccess.clear();
          _locked = 0;
+         for (size_t i=0; i < size; i++) _buf[i].Locked = false;
       } else if (oldsize < size) { /* Enlarge */
          _buf.resize(size);
       }
@@ -205,7 +213,7 @@ namespace QDLIB {
          WaveFunction* wf = _ValidEntry();
 
          if (wf != NULL){
-            if (typeid(Psi) != typeid(wf))
+            if (typeid(*Psi) != typeid(*wf))
                throw (EIncompatible("WFBuffer: Incompatible types"));
 
             if (Psi->size() != wf->size())
@@ -228,9 +236,12 @@ namespace QDLIB {
          _buf.resize(pos+1);
       }
 
+      /* Have at least one valid entry, which never leaves the memory */
+      if (_buf[0].Psi == NULL) _buf[0].Psi = Psi->NewInstance();
+
       /* Ensure we have some space */
       if (_BytesInMem() >= _MaxBuf){/* Move an element to disk storage */
-         _MoveToDisk();
+         _MoveToDisk(pos);
       }
             
       if (_buf[pos].Psi == NULL) { /* Create in mem element*/
@@ -241,7 +252,7 @@ namespace QDLIB {
 
       /* Make sure we're not to large */
       if (_BytesInMem() >= _MaxBuf){/* Move an element to disk storage */
-         _MoveToDisk();
+         _MoveToDisk(0);
       }
 
       if (_BytesInMem() > _MaxBuf){
@@ -259,17 +270,23 @@ namespace QDLIB {
       if (pos >= _buf.size())
          throw (EIncompatible("Tried to read invalid WFBuffer element"));
 
-      _buf[pos].Locked = true;
-      
-      if (_LastLocks > 0 ) _LastAccess.push_front(pos);
-      if (_LastAccess.size() > _LastLocks) {
-         _buf[_LastAccess.back()].Locked = false;
-         _LastAccess.pop_back();
+      if (_ValidEntry() == NULL)
+         throw (EIncompatible("Tried to read from an empty WFBuffer"));
+
+      /* A position is listed only once */
+      for (size_t i=0; i < _LastAccess.size(); i++){
+         if (_LastAccess[i] == pos) {
+            _LastAccess.erase(_LastAccess.begin() + i);
+            break;
+         }
       }
 
+      _LastAccess.push_front(pos);
+      while (_LastAccess.size() > _LastLocks) _LastAccess.pop_back();
+
       if (_buf[pos].Psi == NULL){
          if (_BytesInMem() >= _MaxBuf) {/* Move an element to disk storage */
-            _MoveToDisk();
+            _MoveToDisk(pos);
          }
 
          if (!_buf[pos].ondisk){ /* This might happen if we request a postion which haven't been written before */
@@ -278,7 +295,7 @@ namespace QDLIB {
             _MoveToMem(pos);
 
          if (_BytesInMem() >= _MaxBuf) {/* Move an element to disk storage */
-            _MoveToDisk();
+            _MoveToDisk(pos);
          }
 
          if (_BytesInMem() > _MaxBuf){
@@ -347,10 +364,7 @@ namespace QDLIB {
    {
       /* try to reduce the size */
       if (_BytesInMem() >= _MaxBuf){
-         bool locked = _buf[pos].Locked;
-         _buf[pos].Locked = true;
-         _MoveToDisk();
-         _buf[pos].Locked = locked;
+         _MoveToDisk(pos);
       }
 
       if (_BytesInMem() > _MaxBuf)
diff --git a/src/qdlib/WFBuffer.h b/src/qdlib/WFBuffer.h
index 82193db..6e9b10d 100644
--- a/src/qdlib/WFBuffer.h
+++ b/src/qdlib/WFBuffer.h
@@ -34,7 +34,7 @@ namespace QDLIB {
       private:
          struct BufMap {
             WaveFunction* Psi;
-            bool Locked;
+            bool Locked;         /* Explicitly locked */
             bool ondisk;
             BufMap() : Psi(NULL), Locked(false), ondisk(false) {}
          };
@@ -54,7 +54,7 @@ namespace QDLIB {
 
          WaveFunction* _ValidEntry();
          bool _IsLocked(size_t mempos);
-         void _MoveToDisk();
+         void _MoveToDisk(size_t keep);
          void _MoveToMem(size_t pos);
          string _GetFileName(size_t pos);
          size_t _BytesInMem();
-- 
2.43.0


From e76ee7fd5b10fce053bc85d67daa2ca19fecb9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 060/111] fix: buffers lost the content of wave functions of
 several states on disk

---
 src/qdlib/WFBuffer.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index e8743ae..d40e726 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -5,6 +5,7 @@
 #include "WFBuffer.h"
 #include "tools/GlobalParams.h"
 #include "qdlib/FileWF.h"
+#include "qdlib/WFMultistate.h"
 
 #include <typeinfo>
 #include <unistd.h>
@@ -109,6 +110,26 @@ namespace QDLIB {
       return _buf[mempos].Locked;
    }
    
+   /* Write a wave function, including the states of a multistate WF. */
+   static void _Write(WaveFunction* Psi, ostream& os)
+   {
+      Psi->Serialize(os);
+
+      WFMultistate* wfm = dynamic_cast<WFMultistate*>(Psi);
+      if (wfm != NULL)
+         for (lint i=0; i < wfm->States(); i++) _Write(wfm->State(i), os);
+   }
+
+   /* Read back what was written by _Write. */
+   static void _Read(WaveFunction* Psi, istream& is)
+   {
+      Psi->DeSerialize(is);
+
+      WFMultistate* wfm = dynamic_cast<WFMultistate*>(Psi);
+      if (wfm != NULL)
+         for (lint i=0; i < wfm->States(); i++) _Read(wfm->State(i), is);
+   }
+
    /**
     * Copy a membuf element into the disk buffer.
     * \param keep position which has to stay in memory
@@ -121,7 +142,7 @@ namespace QDLIB {
             // Dump to file
             ofstream file;
             file.open(_GetFileName(i).c_str(), ios_base::trunc);
-            _buf[i].Psi->Serialize(file);
+            _Write(_buf[i].Psi, file);
             file.close();
             if (file.fail())
                throw(EIOError("WFBuffer: can't write buffer file: ", _GetFileName(i)));
@@ -150,7 +171,7 @@ namespace QDLIB {
       ifstream file;
       file.open(_GetFileName(pos).c_str());
       try {
-         _buf[pos].Psi->DeSerialize(file);
+         _Read(_buf[pos].Psi, file);
          if (file.fail())
             throw(EIOError("WFBuffer: can't read buffer file: ", _GetFileName(pos)));
       } catch (Exception& e) {
-- 
2.43.0


From cb980756d0ddfd7fe2ba3ae60425502b7dddbda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 061/111] fix: filter functions were undefined at a center on
 the first grid point

---
 src/math/math_functions.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/math/math_functions.h b/src/math/math_functions.h
index a5a46f2..999cfa2 100644
--- a/src/math/math_functions.h
+++ b/src/math/math_functions.h
@@ -43,7 +43,10 @@ namespace QDLIB {
       int size = vec.size();
       
       for (int i=0; i < size; i++){
-         vec[i] = 1 / (1 + pow( center / double(i) , 2 * k) );
+         if (double(i) == center)
+            vec[i] = 0.5; /* this includes the limit at the first grid point */
+         else
+            vec[i] = 1 / (1 + pow( center / double(i) , 2 * k) );
       }
       
    }
@@ -63,7 +66,10 @@ namespace QDLIB {
       int size = vec.size();
       
       for (int i=0; i < size; i++){
-         vec[i] = 1 / (1 + pow(  double(i) / center, 2 * k) );
+         if (double(i) == center)
+            vec[i] = 0.5; /* this includes the limit at the first grid point */
+         else
+            vec[i] = 1 / (1 + pow(  double(i) / center, 2 * k) );
       }
       
    }
-- 
2.43.0


From 7f80ac444312f11812f8d0b23b0f093e52d52cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 062/111] fix: left passes were ignored by gobblers used as
 imaginary potential

---
 src/qdlib/OGobbler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OGobbler.cpp b/src/qdlib/OGobbler.cpp
index 7abad9c..a900817 100644
--- a/src/qdlib/OGobbler.cpp
+++ b/src/qdlib/OGobbler.cpp
@@ -49,18 +49,22 @@ namespace QDLIB {
       for (int i=0; i < GridSystem::Dim(); i++){
 	 if (_lp[i]){
 	    x = (_lpx[i] - GridSystem::Xmin(i)) / GridSystem::Dx(i);
-	    if (int(x) >  GridSystem::DimSize(i) || int(x) < 0)
+	    if (int(x) >  GridSystem::DimSize(i) || x < 0)
 	       throw ( EParamProblem ("Center of filter edge out of the grid") );
 	    
 	    filter.newsize(GridSystem::DimSize(i));
 	    FunctionGenerator<dVec>::BwLowpass(filter, x, _order);
 	
 	    view.ActiveDim(i);
-	    view *= filter;
+
+	    if (_nip)
+	       view += filter;
+	    else
+	       view *= filter;
 	 }
 	 if (_rp[i]){
 	    x = (_rpx[i] - GridSystem::Xmin(i)) / GridSystem::Dx(i);
-	    if (int(x) >  GridSystem::DimSize(i) || int(x) < 0)
+	    if (int(x) >  GridSystem::DimSize(i) || x < 0)
 	       throw ( EParamProblem ("Center of filter edge out of the grid") );
 	    
 	    filter.newsize(GridSystem::DimSize(i));
-- 
2.43.0


From 3a45bf0bff17af8007f2a1fecfc0ff4916c34374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 063/111] fix: absorbing layers were placed at both ends if
 none was requested, and amplified for odd orders

---
 src/qdlib/OGridPML.cpp |  4 ++++
 src/qdlib/PML.cpp      | 16 +++++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/OGridPML.cpp b/src/qdlib/OGridPML.cpp
index 73e27f7..6e8a61a 100644
--- a/src/qdlib/OGridPML.cpp
+++ b/src/qdlib/OGridPML.cpp
@@ -58,6 +58,9 @@ namespace QDLIB
 
       *((GridSystem*) this) = *((GridSystem*) psi);
 
+      if (_mass.size() < GridSystem::Dim())
+         throw( EParamProblem("GridPML: mass for at least one dim is missing") );
+
       Diff::SetGrid(*this);
       Diff::InitParams(_params);
       Diff::_InitKspace();
@@ -115,6 +118,7 @@ namespace QDLIB
 
       *destPsi = 0.0;
       for (int i=0; i < GridSystem::Dim(); i++){
+         if (_mass[i] <= 0) continue; /* not applied in this dimension */
          DnDxn(_buf1, sourcePsi, i);
          _pml[i].ApplyTransform(_buf1, _conj);
          DnDxn(_buf2, _buf1, i, -1./2./_mass[i]);
diff --git a/src/qdlib/PML.cpp b/src/qdlib/PML.cpp
index 27cce9f..7765e0f 100644
--- a/src/qdlib/PML.cpp
+++ b/src/qdlib/PML.cpp
@@ -41,7 +41,7 @@ namespace QDLIB
       if (pm.isPresent("lmap")){
          vector<int> val;
          pm.GetArray("lmap", val);
-         if (val.size() != 1 && dim > val.size())
+         if (val.size() != 1 && dim >= val.size())
             throw (EParamProblem("PML: layer mapping for at least one dim is missing"));
 
          if (val.size() == 1)
@@ -56,7 +56,7 @@ namespace QDLIB
       if (pm.isPresent("gamma")){
          vector<double> val;
          pm.GetArray("gamma", val);
-         if (val.size() != 1 && dim > val.size())
+         if (val.size() != 1 && dim >= val.size())
             throw (EParamProblem("PML: gamma for at least one dim is missing"));
 
          if (val.size() == 1)
@@ -68,7 +68,7 @@ namespace QDLIB
       if (pm.isPresent("thick")){
          vector<double> val;
          pm.GetArray("thick", val);
-         if (val.size() != 1 && dim > val.size())
+         if (val.size() != 1 && dim >= val.size())
             throw (EParamProblem("PML: thickness for at least one dim is missing"));
 
          if (val.size() == 1)
@@ -84,7 +84,7 @@ namespace QDLIB
       if (pm.isPresent("p")){
          vector<double> val;
          pm.GetArray("p", val);
-         if (val.size() != 1 && dim > val.size())
+         if (val.size() != 1 && dim >= val.size())
             throw (EParamProblem("PML: mononomial order for at least one dim is missing"));
 
          if (val.size() == 1)
@@ -97,7 +97,7 @@ namespace QDLIB
       if (pm.isPresent("k")){
          vector<double> val;
          pm.GetArray("k", val);
-         if (val.size() != 1 && dim > val.size())
+         if (val.size() != 1 && dim >= val.size())
             throw (EParamProblem("PML: characteristic k-value order for at least one dim is missing"));
 
          if (val.size() == 1)
@@ -125,8 +125,8 @@ namespace QDLIB
       _f1.newsize(_thick);
       _df1.newsize(_thick);
       for (int i=0; i < _thick; i++){
-         _f1[i] = 1. / (1. + phi * pow( double(i-_thick-1),_p));
-         _df1[i] = -1 / (_f1[i] * _f1[i]) * phi * _p * pow( double(i-_thick-1),_p - 1);
+         _f1[i] = 1. / (1. + phi * pow( double(_thick+1-i),_p));
+         _df1[i] = 1 / (_f1[i] * _f1[i]) * phi * _p * pow( double(_thick+1-i),_p - 1);
       }
 
       Logger& log = Logger::InstanceRef();
@@ -146,6 +146,8 @@ namespace QDLIB
     */
    void PML::ApplyTransform(cVec* wf, bool conj)
    {
+      if (_side == 0) return; /* no layer in this dimension */
+
       _grid.ActiveDim(_dim);
       int lo = _grid.LowOthers();
       int Nx = _grid.DimSize(_dim);
-- 
2.43.0


From e8e87b4364814b058ab482a37f4f643c034ea63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 064/111] fix: copies of jump operators lost the accepted jump
 probability

---
 src/qdlib/OJump.cpp | 23 ++++++++++++++++++++---
 src/qdlib/OJump.h   |  4 ++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OJump.cpp b/src/qdlib/OJump.cpp
index 945d864..beea757 100644
--- a/src/qdlib/OJump.cpp
+++ b/src/qdlib/OJump.cpp
@@ -45,6 +45,23 @@ namespace QDLIB {
         params.GetValue("max_pjump", _max_pjump);
     }
 
+    Operator* OJump::operator=(Operator* O)
+    {
+      return Copy(O);
+    }
+
+    Operator* OJump::Copy(Operator* O)
+    {
+      OJump* o = dynamic_cast<OJump*>(O);
+      if (o == NULL)
+        throw EIncompatible("Not a jump operator", O->Name());
+
+      OList::Copy(O);
+      _max_pjump = o->_max_pjump;
+
+      return this;
+    }
+
     dcomplex OJump::MatrixElement(WaveFunction * PsiBra, WaveFunction * PsiKet)
     {
       throw EIncompatible("OJump::MatrixElement is not implemented");
@@ -70,11 +87,11 @@ namespace QDLIB {
 	        csum[i] = pjump + ( (i > 0) ? csum[i-1] : 0.0 );
        }
 
-       if (csum.back() >= _max_pjump)
-	        throw EOverflow("OJump::Apply: jump propability greater than max_pjump");
-
        DELETE_WF(buf);
 
+       if (Size() > 0 && csum.back() >= _max_pjump)
+	        throw EOverflow("OJump::Apply: jump propability greater than max_pjump");
+
        // decide jump
        double rnd = drand48();
 
diff --git a/src/qdlib/OJump.h b/src/qdlib/OJump.h
index 7df0ef1..6efcbff 100644
--- a/src/qdlib/OJump.h
+++ b/src/qdlib/OJump.h
@@ -46,6 +46,10 @@ namespace QDLIB {
 
 	 virtual void Init(ParamContainer &params);
 
+         virtual Operator* operator=(Operator* O);
+
+         virtual Operator* Copy(Operator* O);
+
          virtual const string& Name();
 
          virtual dcomplex MatrixElement(WaveFunction *PsiBra, WaveFunction *PsiKet);
-- 
2.43.0


From ba07f0d9af5c2a9b78157ab9659f1344ddc0dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 065/111] fix: copying flux operators used released wave
 functions

---
 src/qdlib/OFlux.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OFlux.cpp b/src/qdlib/OFlux.cpp
index 8534c61..8645334 100644
--- a/src/qdlib/OFlux.cpp
+++ b/src/qdlib/OFlux.cpp
@@ -84,12 +84,12 @@ namespace QDLIB {
       
       o = dynamic_cast<OFlux*>(O);
       if (o == NULL)
-         throw (EIncompatible("Can't copy to Flux Operator", o->Name()));
+         throw (EIncompatible("Can't copy to Flux Operator", O->Name()));
       
       OList::Copy(O);
       
       DELETE_WF(_buf);
-      if (_buf != NULL) _buf = dynamic_cast<WFGridSystem*>(o->_buf->NewInstance());
+      _buf = NULL; /* will be set up by Init() */
       
       _indT = o->_indT;
       _indG = o->_indG;
-- 
2.43.0


From 561667bce8e7f1943edfb19bacbaf7df85a473d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 066/111] fix: flux operator had the opposite sign of its
 definition

---
 src/qdlib/OFlux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OFlux.cpp b/src/qdlib/OFlux.cpp
index 8645334..0f3e8f3 100644
--- a/src/qdlib/OFlux.cpp
+++ b/src/qdlib/OFlux.cpp
@@ -51,7 +51,7 @@ namespace QDLIB {
 
       /* Im( Psi* T Psi )*/
       Get(_indT)->Apply(_buf, PsiKet);
-      _buf->DirectProductConjugate(PsiBra);
+      MultElementsConjugate((cVec*) _buf, (cVec*) PsiBra, (cVec*) _buf, 1.0);
       _buf->Imag();
       
       /* Integrate over inner Volume */
-- 
2.43.0


From d093ebba6fe069b08439001a8305c359f7ab5a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 067/111] fix: energy range of Raman couplings ignored sign and
 lower bound

---
 src/math/math_functions.cpp | 14 ++++++++++++++
 src/math/math_functions.h   |  2 ++
 src/qdlib/OGridRaman.cpp    | 14 ++++++++++++--
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/math/math_functions.cpp b/src/math/math_functions.cpp
index d1781d6..ed74f82 100644
--- a/src/math/math_functions.cpp
+++ b/src/math/math_functions.cpp
@@ -47,6 +47,20 @@ namespace QDLIB {
       return r;
    }
    
+   /**
+    * Range of the products of two values from the ranges [min:max] and [min2:max2].
+    */
+   void RangeProduct(double &min, double &max, double min2, double max2)
+   {
+      double p[4] = { min * min2, min * max2, max * min2, max * max2 };
+
+      min = max = p[0];
+      for (int i=1; i < 4; i++){
+         if (p[i] < min) min = p[i];
+         if (p[i] > max) max = p[i];
+      }
+   }
+
    /**
     * Returns the maximum abs value in the vector.
     */
diff --git a/src/math/math_functions.h b/src/math/math_functions.h
index 999cfa2..e968d82 100644
--- a/src/math/math_functions.h
+++ b/src/math/math_functions.h
@@ -122,6 +122,8 @@ namespace QDLIB {
    extern double VecMax(dVec &v);
    
    extern double VecMax(cVec &v);
+
+   extern void RangeProduct(double &min, double &max, double min2, double max2);
    
    extern double Faculty (int arg);
    
diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 5ee6f20..8f98ec9 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -35,12 +35,22 @@ namespace QDLIB {
 
    dcomplex OGridRaman::Emax()
    {
-      return dcomplex(0.5 * VecMax( *((dVec*) this) ) * VecMax( (dVec&) *GetLaser(0) ) * VecMax( (dVec&) *GetLaser(1) ));
+      double min = VecMin( *((dVec*) this) ), max = VecMax( *((dVec*) this) );
+
+      RangeProduct(min, max, VecMin( (dVec&) *GetLaser(0) ), VecMax( (dVec&) *GetLaser(0) ));
+      RangeProduct(min, max, VecMin( (dVec&) *GetLaser(1) ), VecMax( (dVec&) *GetLaser(1) ));
+
+      return dcomplex(-0.5 * min); /* the coupling is -1/2 * alpha * E1 * E2 */
    }
 
    dcomplex OGridRaman::Emin()
    {
-      return dcomplex(0);
+      double min = VecMin( *((dVec*) this) ), max = VecMax( *((dVec*) this) );
+
+      RangeProduct(min, max, VecMin( (dVec&) *GetLaser(0) ), VecMax( (dVec&) *GetLaser(0) ));
+      RangeProduct(min, max, VecMin( (dVec&) *GetLaser(1) ), VecMax( (dVec&) *GetLaser(1) ));
+
+      return dcomplex(-0.5 * max);
    }
 
    void OGridRaman::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
-- 
2.43.0


From cf1b794864545ba5a9951da8305544c69dfb0b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 068/111] fix: energy range of the position operator ignored
 scale and dimensions

---
 src/qdlib/OGridPosition.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridPosition.cpp b/src/qdlib/OGridPosition.cpp
index f8c630b..5c7b96d 100644
--- a/src/qdlib/OGridPosition.cpp
+++ b/src/qdlib/OGridPosition.cpp
@@ -4,6 +4,7 @@
 
 #include "OGridPosition.h"
 #include "WFGridSystem.h"
+#include "math/math_functions.h"
 
 namespace QDLIB {
 
@@ -85,12 +86,12 @@ namespace QDLIB {
 
    dcomplex OGridPosition::Emax()
    {
-      return(dcomplex(GridSystem::Xmax(_dim)));
+      return dcomplex(VecMax( *((dVec*) this) ));
    }
    
    dcomplex OGridPosition::Emin()
    {
-      return(dcomplex(GridSystem::Xmin(_dim)));
+      return dcomplex(VecMin( *((dVec*) this) ));
    }
 
    
-- 
2.43.0


From 65d12d87684bf68a84f09b2977cfddc653fbce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 069/111] fix: lower energy bound of scalar operators was zero

---
 src/qdlib/OScalar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OScalar.h b/src/qdlib/OScalar.h
index c82a012..73cce98 100644
--- a/src/qdlib/OScalar.h
+++ b/src/qdlib/OScalar.h
@@ -38,7 +38,7 @@ namespace QDLIB {
          virtual void UpdateTime() {};
 	 virtual dcomplex MatrixElement(WaveFunction *PsiBra, WaveFunction *PsiKet);
 	 virtual dcomplex Emax() { return dcomplex(_value); }
-	 virtual dcomplex Emin() { return dcomplex(0); }
+	 virtual dcomplex Emin() { return dcomplex(_value); }
 	 virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 	 virtual void Apply(WaveFunction *Psi);
          virtual Operator* operator=(Operator* O);
-- 
2.43.0


From 2455e8b31d987bfdc969e67f68e01dc453114a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 070/111] fix: energy range of operator products was wrong for
 negative bounds

---
 src/qdlib/OProduct.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/qdlib/OProduct.cpp b/src/qdlib/OProduct.cpp
index b26e51d..3ce68c9 100644
--- a/src/qdlib/OProduct.cpp
+++ b/src/qdlib/OProduct.cpp
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: gpl-3-only
 
 #include "OProduct.h"
+#include "math/math_functions.h"
 
 namespace QDLIB {
 
@@ -33,22 +34,22 @@ namespace QDLIB {
 
     dcomplex OProduct::Emax()
     {
-       dcomplex val(1);
+       double min = 1, max = 1;
        
        for (int i=Size()-1; i >= 0; i--)
-          val *= Get(i)->Emax();
+          RangeProduct(min, max, Get(i)->Emin().real(), Get(i)->Emax().real());
        
-       return val;
+       return dcomplex(max);
     }
 
     dcomplex OProduct::Emin()
     {
-       dcomplex val(1);
+       double min = 1, max = 1;
        
        for (int i=Size()-1; i >= 0; i--)
-          val *= Get(i)->Emin();
+          RangeProduct(min, max, Get(i)->Emin().real(), Get(i)->Emax().real());
        
-       return val;
+       return dcomplex(min);
     }
 
     void OProduct::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
-- 
2.43.0


From 6e44b78cd257332db0704a7ec079df4e4b246244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 071/111] fix: momentum operators reported a single negative
 bound as energy range

---
 src/qdlib/OGridNabla.cpp | 13 ++++++++++++-
 src/qdlib/OGridNabla.h   |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 0dcdedc..30efd00 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -5,6 +5,7 @@
 #include "OGridNabla.h"
 #include "WFGridSystem.h"
 #include "Kspace.h"
+#include "math/math_functions.h"
 
 namespace QDLIB {
 
@@ -70,7 +71,17 @@ namespace QDLIB {
    /** \return largest k-value*/
    dcomplex OGridNabla::Emax()
    {
-      return dcomplex( (*_kspace)[GridSystem::Size()/2] );
+      double kmax = VecMax(*_kspace);
+
+      if (-VecMin(*_kspace) > kmax) kmax = -VecMin(*_kspace);
+
+      return dcomplex( fabs(_fac) * kmax );
+   }
+
+   /** \return smallest k-value*/
+   dcomplex OGridNabla::Emin()
+   {
+      return dcomplex(0) - Emax();
    }
 
    void OGridNabla::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
diff --git a/src/qdlib/OGridNabla.h b/src/qdlib/OGridNabla.h
index 7de0f2b..8b02f90 100644
--- a/src/qdlib/OGridNabla.h
+++ b/src/qdlib/OGridNabla.h
@@ -76,7 +76,7 @@ namespace QDLIB {
 	 
          virtual dcomplex Emax();
 
-         virtual dcomplex Emin() { return dcomplex(0); }
+         virtual dcomplex Emin();
 	 
          virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 	 
-- 
2.43.0


From 423f1d0a367e1ae17bd454495751c7db85c2b506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 072/111] fix: energy ranges of non-adiabatic couplings missed
 negative values and further dimensions

---
 src/qdlib/OGridNAC.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/qdlib/OGridNAC.cpp b/src/qdlib/OGridNAC.cpp
index c7cfd72..b6b1d72 100644
--- a/src/qdlib/OGridNAC.cpp
+++ b/src/qdlib/OGridNAC.cpp
@@ -102,30 +102,21 @@ namespace QDLIB {
       _buf->Retire();
    }
 
-   /** \todo extend to N-D */
    dcomplex OGridNAC::Emax()
    {
       double max = 0;
       
       for (int i=0; i < Dim(); i++ )
-         max += VecMax(_NACME[i]);
+         max += std::max(VecMax(_NACME[i]), -VecMin(_NACME[i])) / GridSystem::Dx(i);
       
-      max *= M_PI/ _mass / GridSystem::Dx(0);
+      max *= M_PI / fabs(_mass);
       
       return dcomplex(max);
    }
    
-   /** \todo extend to N-D */
    dcomplex OGridNAC::Emin()
    {
-      double min = 0;
-      
-      for (int i=0; i < Dim(); i++ )
-         VecMin(_NACME[i]);
-      
-      min *= M_PI/ _mass / GridSystem::Dx(0);
-      
-      return dcomplex(min);
+      return dcomplex(0) - OGridNAC::Emax();
    }
 
    void OGridNAC::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
-- 
2.43.0


From 47ff796c1a99932490a221f1b7c9707a179b6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 073/111] fix: energy bound of constant kinetic couplings
 ignored the grid spacing

---
 src/qdlib/OGridGMat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 1025590..01e3fcf 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -263,10 +263,10 @@ namespace QDLIB {
                   max = VecMax(*(_Gmat[i][j])) / (GridSystem::Dx(i) * GridSystem::Dx(j));
                   min = VecMin(*(_Gmat[i][j])) / (GridSystem::Dx(i) * GridSystem::Dx(j));
                } else if (_src(i,j) == cnst) {
-                  max = _GmatC(i, j);
-                  min = _GmatC(i, j);
+                  max = _GmatC(i, j) / (GridSystem::Dx(i) * GridSystem::Dx(j));
+                  min = max;
                }
-               if (min < 0 && fabs(min) > fabs(max))
+               if (min < 0 && fabs(min) >= fabs(max))
                   T += 2 * fabs(min);
                else T += 2 * max;
             } else if (i == j){
@@ -294,7 +294,7 @@ namespace QDLIB {
                if (_src(i,j) == grd)
                   min = VecMin(*(_Gmat[i][j])) / (GridSystem::Dx(i) * GridSystem::Dx(j));
                else if (_src(i,j) == cnst)
-                  min = _GmatC(i,j);
+                  min = _GmatC(i,j) / (GridSystem::Dx(i) * GridSystem::Dx(j));
 
                if (min < 0)
                   Tmin += min;
-- 
2.43.0


From acc3bd0555d2b1ceaf5ef850113657375511122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 074/111] fix: energy range of negative projections was the one
 of positive projections

---
 src/qdlib/OProjection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OProjection.h b/src/qdlib/OProjection.h
index fc3236c..7f648f8 100644
--- a/src/qdlib/OProjection.h
+++ b/src/qdlib/OProjection.h
@@ -60,9 +60,9 @@ namespace QDLIB {
    
 	 virtual void UpdateTime(){};
 	    
-	 virtual dcomplex Emax() {return 1;}
+	 virtual dcomplex Emax() {return (_inv ? 1 : 0) + (_inv != (_sign < 0) ? 0 : 1);}
 	    
-	 virtual dcomplex Emin() {return 0;}
+	 virtual dcomplex Emin() {return Emax() - dcomplex(1);}
 	    
 	 virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 	    
-- 
2.43.0


From 72bacc7601164ae9cc2f2c2e5ce5b97c96db01f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 075/111] fix: energy range of multistate operators missed
 negative energies

---
 src/qdlib/OMultistate.cpp | 64 ++++++++++++++++++++-------------------
 src/qdlib/OMultistate.h   |  1 +
 2 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index dc88457..1377298 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -160,46 +160,48 @@ namespace QDLIB
       }
    }
    
-   dcomplex OMultistate::Emax()
+   /**
+    * Bound of the energy range from the bounds of the diagonal
+    * and the couplings.
+    */
+   double OMultistate::_EBound(bool upper)
    {
-      dMat Mmax;
+      dMat M;
       dVec Evals;
-      
-      Mmax.newsize(_nstates,_nstates);
-      
-      Mmax=0;
-      
+
+      M.newsize(_nstates,_nstates);
+
+      M=0;
+
       for(int i=0; i< _nstates; i++){
          for(int j=0; j < _nstates; j++){
-	    if (_matrix[i][j] != NULL)
-               Mmax(i,j) = cabs(_matrix[i][j]->Emax());
-	 }
+            if (_matrix[i][j] == NULL){
+               if (i == j && _unity) M(i,i) = 1;
+            } else if (i == j)
+               M(i,i) = upper ? _matrix[i][i]->Emax().real() : _matrix[i][i]->Emin().real();
+            else {
+               double c = cabs(_matrix[i][j]->Emin());
+
+               if (upper) c = std::max(c, cabs(_matrix[i][j]->Emax()));
+
+               M(i,j) = M(j,i) = std::max(M(i,j), c);
+            }
+         }
       }
-      
-      LAPACK::FullDiagHermitian(&Mmax, &Evals);
-      
-      return dcomplex(VecMax(Evals));
+
+      LAPACK::FullDiagHermitian(&M, &Evals);
+
+      return upper ? VecMax(Evals) : VecMin(Evals);
+   }
+
+   dcomplex OMultistate::Emax()
+   {
+      return dcomplex(_EBound(true));
    }
 	 
    dcomplex OMultistate::Emin()
    {
-      dMat Mmin;
-      dVec Evals;
-      
-      Mmin.newsize(_nstates,_nstates);
-      
-      Mmin=0;
-      
-      for(int i=0; i< _nstates; i++){
-         for(int j=0; j < _nstates; j++){
-	    if (_matrix[i][j] != NULL)
-               Mmin(i,j) = cabs(_matrix[i][j]->Emin());
-	 }
-      }
-      
-      LAPACK::FullDiagHermitian(&Mmin, &Evals);
-      
-      return dcomplex(VecMin(Evals));
+      return dcomplex(_EBound(false));
    }
 
    
diff --git a/src/qdlib/OMultistate.h b/src/qdlib/OMultistate.h
index 23b1ff5..79c1855 100644
--- a/src/qdlib/OMultistate.h
+++ b/src/qdlib/OMultistate.h
@@ -29,6 +29,7 @@ namespace QDLIB
 	 string _name;
 	 
 	 bool _hermitian;  /* Assume hermiticity for missing elements */
+	 double _EBound(bool upper);
 	 int _nstates;
          bool _unity;      /* treat empty diagonal as unity */
          bool _subinit;    /* Initial content ops */
-- 
2.43.0


From cc1f246c9494e5adc832a70151b198318f4dbe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 076/111] fix: linear combinations of wave functions came out
 twice as large

---
 src/ChainLoader.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index cfaa673..413d6b1 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -275,7 +275,6 @@ namespace QDLIB
             *WF += wfadd;
          }
 
-         *WF += wfadd;
          DELETE_WF(wfadd);
          WFNode->NextNode();
       }
-- 
2.43.0


From 91119a252cd4e42375ae9d8fe7b3b29c1b428194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 077/111] fix: a coefficient of zero was ignored for wave
 functions

---
 src/ChainLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index 413d6b1..d53a701 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -410,7 +410,7 @@ namespace QDLIB
          *WF *= cexpI(phase * M_PI);
       }
 
-      double coeff=0;
+      double coeff=1;
 
       if (pm.isPresent("coeff")){
          pm.GetValue("coeff", coeff);
@@ -420,7 +420,7 @@ namespace QDLIB
          coeff = sqrt(coeff);
       }
 
-      if(coeff != 0){
+      if(coeff != 1){
          log.cout().precision(8);
          log.cout() << fixed << "Coefficient = " << coeff << endl;
          log.cout() << fixed << "Coefficient^2 = " << coeff*coeff << endl;
-- 
2.43.0


From 060d8f555e818e601d44a285e43b2b97d5c1e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 078/111] fix: Multimap applied the inverse of its map and
 could leave states empty or shared

---
 src/ChainLoader.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index d53a701..8e72d7b 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -228,13 +228,15 @@ namespace QDLIB
 	   if (statemap[i] >= wfin->States() || statemap[i] < 0)
 	      throw (EParamProblem("Multimap: state index is invalid"));
 
-	   wfout->Add(wfin->State(i), statemap[i]);
+	   WaveFunction *wfstate = wfin->State(statemap[i])->NewInstance();
+	   *wfstate = wfin->State(statemap[i]);
+	   wfout->Add(wfstate, i);
 
 	   if (i >= coeffs.size()) {
-	      *(wfout->State(statemap[i])) *= 0;
+	      *wfstate *= 0;
 	   } else {
-	      *(wfout->State(statemap[i])) *= coeffs[i];
-	      log.cout() << coeffs[i] << " * " << i << " -> " << statemap[i] << endl;
+	      *wfstate *= coeffs[i];
+	      log.cout() << coeffs[i] << " * " << statemap[i] << " -> " << i << endl;
 	   }
 	}
 
-- 
2.43.0


From bec3d125bc780739612f708baa80f2d39530f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 079/111] fix: Multimap without a list of states read beyond it

---
 src/ChainLoader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index 8e72d7b..17d14d6 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -211,6 +211,9 @@ namespace QDLIB
          pm.GetArray("statemap", statemap);
       }
 
+      if (statemap.empty())
+	throw(EParamProblem("Multimap: statemap is missing"));
+
       if (statemap.size() > uint(wfin->States()))
 	throw(EParamProblem("More states in statemap than input states available"));
 
-- 
2.43.0


From 76ff926bc56649eea3ffc7b23855577e7005cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 080/111] fix: some errors were thrown as a bare string

---
 src/ChainLoader.cpp     | 4 ++--
 src/qdlib/OGridGMat.cpp | 2 +-
 src/qdlib/ORK4.cpp      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index 17d14d6..f2d7f69 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -64,7 +64,7 @@ namespace QDLIB
 	    if (osub == NULL)
 	       throw ( EParamProblem("Can't load operator") );
 	    if ( (gsub = dynamic_cast<OGridSystem*>(osub) ) == NULL )
-	       throw ( EIncompatible("Tried to load into GridSum"), osub->Name() );
+	       throw ( EIncompatible("Tried to load into GridSum", osub->Name()) );
 	    sum->Add( gsub );
 	    child->NextNode();
 	 }
@@ -455,7 +455,7 @@ namespace QDLIB
       OPropagator* U = dynamic_cast<OPropagator*>(O);
 
       if (U == NULL)
-         throw (EIncompatible("This is not a propagator!"), O->Name());
+         throw (EIncompatible("This is not a propagator!", O->Name()));
 
       return U;
    }
diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 01e3fcf..6aa24e8 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -58,7 +58,7 @@ namespace QDLIB {
       WFGridSystem *psi = dynamic_cast<WFGridSystem*>(Psi);
 
       if (psi == NULL)
-         throw (EIncompatible ("Psi not a WFGridSystem"), Psi->Name() );
+         throw (EIncompatible ("Psi not a WFGridSystem", Psi->Name()) );
 
       if (buf != NULL) return;  // Avoid init twice
 
diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index b8e4053..eb07883 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -112,7 +112,7 @@ namespace QDLIB
 
       o = dynamic_cast<ORK4*>(O);
       if (o == NULL)
-         throw (EIncompatible("ORK4: Can't copy operator"), O->Name());
+         throw (EIncompatible("ORK4: Can't copy operator", O->Name()));
 
 
       OPropagator::Copy(O);
-- 
2.43.0


From 6dd85a361f478eb5321400573bad69b6b4f1ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 081/111] fix: empty diagonal elements of multistate operators
 were one by default

---
 src/qdlib/OMultistate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 1377298..1914d4a 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -90,7 +90,7 @@ namespace QDLIB
          if (_nstates > QD_MAX_STATES)
             throw (EOverflow("More than QD_MAX_STATES not possible"));
       }
-     _params.GetValue( "unity",_unity,true);
+     _params.GetValue( "unity",_unity,false);
 
       
       
-- 
2.43.0


From ad0f4eb6fbc26f56f1f6e0e56563a937a62ea0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 082/111] fix: a density filter without valid states read
 beyond the wave function

---
 src/FiltersList.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/FiltersList.cpp b/src/FiltersList.cpp
index 6df5467..a3060cc 100644
--- a/src/FiltersList.cpp
+++ b/src/FiltersList.cpp
@@ -271,12 +271,13 @@ namespace QDLIB {
 	       _ofile << _filter[i].label << "\t";
 
 	    /* validity of "states" defintion */
-	    if (_filter[i].ms[0] > -1 || _filter[i].ms[1] > -1){
+	    if (_filter[i].action == rho || _filter[i].ms[0] > -1 || _filter[i].ms[1] > -1){
 		WFMultistate* psi  = dynamic_cast<WFMultistate*>(Psi);
 		if ( psi == NULL )
 		    throw(EIncompatible("Wavefunction not a multistate type, but 'states' directive in filter defined: ", Psi->Name()));
 
-		if (psi->States() <= lint(_filter[i].ms[0]) || psi->States() <= lint(_filter[i].ms[1]))
+		if (_filter[i].ms[0] < 0 || _filter[i].ms[1] < 0 ||
+		    psi->States() <= lint(_filter[i].ms[0]) || psi->States() <= lint(_filter[i].ms[1]))
 		    throw(EParamProblem("Invalid state number in 'states' directive in filter defined."));
 	    }
 	 }
-- 
2.43.0


From 812af5ef7b70f4c32cfaa5296a197f11877b8168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 083/111] fix: operators before the first propagator of a ket
 replaced the probe

---
 src/ProgCfun.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 0170d32..7533713 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -166,9 +166,10 @@ namespace QDLIB
       *psi_t = Psi0;
     }
 
-    if (bra) {
+    if (bra)
       bra_first_op_ = first_op;
-    }
+    else
+      ket_first_op_ = first_op;
 
     return psi_t;
   }
-- 
2.43.0


From 21e55c108cdf79ae2a13e80e7657bbfc4797c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 084/111] fix: the bra of correlation functions was one step
 ahead of the ket

---
 src/ProgCfun.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 7533713..536d652 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -217,11 +217,11 @@ namespace QDLIB
 	if ( bra == NULL) {
 	    cfun[t] = *ket * psi_t;
 	} else {
+	    cfun[t] = *bra * psi_t;
 	    for (int tb=0; tb < wcycle_; tb++) {
 		U_->Apply(bra);
 		++master_clock_;
 	    }
-	    cfun[t] = *bra * psi_t;
 	}
     }
 
@@ -316,11 +316,11 @@ namespace QDLIB
 	// Propagate independent bra side
 	if (bra != NULL){
 	    int step = master_clock_.TimeStep();
+	    *psi_t_b = bra;
 	    for (int i=0; i < wcycle_; i++) {
 		U_->Apply(bra);
 		++master_clock_;
 	    }
-	    *psi_t_b = bra;
 	    master_clock_.TimeStep(step); // restore time step
 	}
 
-- 
2.43.0


From 1d39f013dd53409fde81eb9d39ee9531bab6a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 085/111] fix: only one operator between two propagators of a
 correlation function was used

---
 src/ProgCfun.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 536d652..b745c4e 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -274,12 +274,13 @@ namespace QDLIB
 
 
     // find the first operators after the first U in ket and bra
-    uint nUket = 0; uint first_ket = 0;
+    uint nUket = 0; uint first_ket = 0; uint last_ket = 0;
     for (uint i=0; i < ket_.size(); i++){
 	if ( ket_[i] == NULL ) {
 	    nUket++;
-	} else
-	    if (nUket == 1) first_ket = i;
+	    if (nUket == 1) first_ket = i+1;
+	    last_ket = i+1; // after the last U
+	}
     }
 
     uint nUbra = 0; uint first_bra = 0;
@@ -287,8 +288,8 @@ namespace QDLIB
 	for (uint i=0; i < bra_.size(); i++){
 	    if ( bra_[i] == NULL ) {
 		nUbra++;
-	    } else
-		if (nUbra == 1) first_bra = i;
+		if (nUbra == 1) first_bra = i+1;
+	    }
 	}
 
     // figure out which variant to use
@@ -345,11 +346,7 @@ namespace QDLIB
 
 	    // Signal interaction on ket
 	    *psi_t_s = psi_t_k;
-	    int ketsigop = first_ket+2;
-	    if (!lhsint)
-		ketsigop = first_ket;
-
-	    for (uint i=ketsigop; i < ket_.size(); i++){
+	    for (uint i=last_ket; i < ket_.size(); i++){
 		if (ket_[i] != NULL){
 		    ket_[i]->Apply(psi_t_s);
 		} else
-- 
2.43.0


From 1d211bc6b719e384eecbd3df5cd404013d952959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 086/111] fix: correlation functions could not be calculated
 from a stored propagation

---
 src/ProgCfun.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index b745c4e..9d52751 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -431,21 +431,28 @@ namespace QDLIB
 	int Nt, wcycle;
 	double dt;
 	propagation_meta.GetValue("Nt", Nt);
-	propagation_meta.GetValue("wcycle", wcycle);
+	propagation_meta.GetValue("Wcycle", wcycle);
 	propagation_meta.GetValue("dt", dt);
 
+	string basename;
+	propagation_meta.GetValue("WFBaseName", basename);
+
+	if (wcycle < 1)
+	    throw(EParamProblem("Invalid write cycle in propagation meta file"));
+
 	master_clock_.Dt(dt);
 	master_clock_.Steps(Nt);
 	wcycle_ = wcycle;		/* use wcycle from propagation */
 
 	/* Read propagation */
-	wfbuffer.ReadFromFiles(read_dir_);
+	wfbuffer.ReadFromFiles(read_dir_ + "/" + basename);
 
-	if (wfbuffer.Size() < uint(Nt/wcycle) ) master_clock_.Steps(wfbuffer.Size());
+	if (wfbuffer.Size() < uint(Nt/wcycle) ) master_clock_.Steps(wfbuffer.Size() * wcycle);
 	if (wfbuffer.Size() < 1 )
 	  throw (EParamProblem("Wave function buffer is empty"));
 
-	Psi0 = wfbuffer[0];
+	Psi0 = wfbuffer[0]->NewInstance();
+	*Psi0 = wfbuffer[0];
     }
 
     log.IndentDec();
@@ -479,7 +486,7 @@ namespace QDLIB
     if (ket_.back() == NULL)
 	throw (EParamProblem("Last operator in bra definition has to be the signal mode operator"));
 
-    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || bra_[0] != NULL))
+    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || (bra_.size() > 0 && bra_[0] != NULL)))
       throw (EParamProblem("Pre-propagated time series requires a propagator as first element int the ket and bra definitions."));
 
     /* Run initial time series, if not already present */
-- 
2.43.0


From 4aa3130ba4e01e4cce15c22b9c6df73250f07993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 087/111] fix: the file name of correlation functions was
 ignored

---
 src/ProgCfun.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 9d52751..a41b9aa 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -233,7 +233,7 @@ namespace QDLIB
     CreateMetaData(1, cfun.Params());
 
     file.Format(FileSingle<Cfunc>::binary);
-    file.Name(dir_ + "Cfun_1");
+    file.Name(dir_ + fname_ + "_1");
     file.Suffix(".cf");
     file.WriteSingleFileToRaw(&cfun);
   }
@@ -379,7 +379,7 @@ namespace QDLIB
     CreateMetaData(2, cfun.Params());
 
     file.Format(FileSingle<Cfunc>::binary);
-    file.Name(dir_ + "Cfun_2");
+    file.Name(dir_ + fname_ + "_2");
     file.Suffix(".cf");
     file.WriteSingleFileToRaw(&cfun);
   }
-- 
2.43.0


From c0e6e0cffc2c208ea2dc8084a47bc3a8ac8034df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 088/111] fix: correlation functions with missing or empty
 sections crashed

---
 src/ProgCfun.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index a41b9aa..5df5ab0 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -84,6 +84,8 @@ namespace QDLIB
 
     if ( attr.isPresent("wcycle") ) {
 	attr.GetValue("wcycle", wcycle_);
+	if (wcycle_ < 1)
+	    throw ( EParamProblem ("Write cycle less than one defined") );
     }
 
     log.Header("Correlation function parameters", Logger::Section);
@@ -111,7 +113,8 @@ namespace QDLIB
       log.IndentInc();
 
       XmlNode *child = section->NextChild();
-      child->AdjustElementNode();
+      if (child == NULL)
+	  throw (EParamProblem("Empty definition for ", name));
 
       while (child->EndNode()){
 	  if ( child->Name() == "U" ) {
@@ -483,6 +486,9 @@ namespace QDLIB
 	    throw (EParamProblem("Last operator in bra definition has to be a propagator"));
     }
 
+    if (ket_.size() == 0)
+	throw (EParamProblem("No ket definition found"));
+
     if (ket_.back() == NULL)
 	throw (EParamProblem("Last operator in bra definition has to be the signal mode operator"));
 
-- 
2.43.0


From ad70d0cf899a1dd988046072a1815190a56f8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 089/111] fix: time dependent operators of correlation
 functions had no clock

---
 src/ProgCfun.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 5df5ab0..6e12b16 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -200,11 +200,11 @@ namespace QDLIB
     log.Header("Calculate One-point correlation function", Logger::SubSection);
     log.flush();
 
+    master_clock_.Begin();
     if (bra_.size() > 0 ){
 	bra = InitializeKetBra(true);
     }
 
-    master_clock_.Begin();
     for (int t=0; t < master_clock_.Steps()/wcycle_; t++){
 	WaveFunction* ket = wfbuffer.Get(t);
 	*psi_t = ket;
@@ -267,6 +267,7 @@ namespace QDLIB
     WaveFunction* psi_t_b = wfbuffer.Get(0)->NewInstance();
     WaveFunction* bra = NULL;
 
+    master_clock_.Begin();
     if (bra_.size() > 0 ){
 	bra = InitializeKetBra(true);
     }
@@ -304,7 +305,6 @@ namespace QDLIB
     else
 	throw(EParamProblem("Wrong number of propagators in ket/bra definitions!"));
 
-    master_clock_.Begin();
     for (int t1=0; t1 < Nt; t1++){
 	master_clock_.TimeStep(t1*wcycle_);
 	if (lhsint) {
@@ -470,13 +470,19 @@ namespace QDLIB
     /* Get defintion for bra */
     bra_first_op_ = ReadKetBra("bra", bra_);
     for (uint i=0; i < bra_.size(); i++) {
-	if (bra_[i] != NULL) bra_[i]->Init(Psi0);
+	if (bra_[i] != NULL) {
+	    bra_[i]->Clock(&master_clock_);
+	    bra_[i]->Init(Psi0);
+	}
     }
 
     /* Get defintion for ket */
     ket_first_op_ = ReadKetBra("ket", ket_);
     for (uint i=0; i < ket_.size(); i++) {
-       if (ket_[i] != NULL) ket_[i]->Init(Psi0);
+       if (ket_[i] != NULL) {
+	   ket_[i]->Clock(&master_clock_);
+	   ket_[i]->Init(Psi0);
+       }
     }
 
     if (bra_.size() == 0){ /* no bra means: <psi|U+ */
@@ -499,10 +505,10 @@ namespace QDLIB
     if (wfbuffer.Size() == 1){
 	log.cout() << "\nRun initial propagation U(t1,0)|psi>\n"; log.flush();
 
-	WaveFunction* psi_t = InitializeKetBra(false);
-
 	/* fill wfbuffer with time series */
 	master_clock_.Begin();
+	WaveFunction* psi_t = InitializeKetBra(false);
+
 	wfbuffer.Set(0, psi_t);
 	for (int i=1; i < master_clock_.Steps(); i++){
 	    U_->Apply(psi_t);
-- 
2.43.0


From 352d7f788f3595c4146644188c671e362e57da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 090/111] fix: a write cycle of zero divided by zero

---
 src/ProgPropa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 8bbb9be..19ea601 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -60,7 +60,7 @@ namespace QDLIB {
       /* Init write cycles */
       if ( attr.isPresent("wcycle") ) {
 	 attr.GetValue("wcycle", _wcycle);
-	 if ( steps < 1)
+	 if ( _wcycle < 1)
 	    throw ( EParamProblem ("Write cycle less than one defined") );
 	 _reporter.WriteCycle(_wcycle);
       }
-- 
2.43.0


From 9e5174894c1bbc94246cd2a954f233752a13a736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 091/111] fix: a failure to write the description of a run was
 ignored

---
 src/ProgPropa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 19ea601..4e88750 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -154,7 +154,7 @@ namespace QDLIB {
       p.SetValue("Wcycle", _wcycle);
 
       if (!p.WriteToFile(_dir + "Propagation" + METAFILE_SUFFIX))
-         EIOError("Can not write meta file");
+         throw ( EIOError("Can not write meta file") );
    }
 
    /**
-- 
2.43.0


From a758dfb89a29c769b7ea7aea93077360dce0d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 092/111] fix: a stored propagation could not be given by its
 base name

---
 src/tools/fstools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/fstools.cpp b/src/tools/fstools.cpp
index dd3ac1f..2d577ea 100644
--- a/src/tools/fstools.cpp
+++ b/src/tools/fstools.cpp
@@ -107,6 +107,9 @@ namespace QDLIB {
       
       ret =  stat(name.c_str(), &statbuf);
       
+      if (ret != 0 && errno == ENOENT)
+	 return false;
+
       if (ret != 0)
 	 throw ( EIOError(errno, name) );
       
-- 
2.43.0


From 8948ce68d7c4f510e86f7747740696750db5d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 093/111] fix: eigenfunctions of a stored propagation used the
 time step of the input

---
 src/ProgEigen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 105a940..32a7ba6 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -513,6 +513,10 @@ namespace QDLIB
 	if (_MaxSteps < 2)
 	   throw (EIOError("Not enough files for autocorrelation found"));
 
+	/* The clock follows the propagation which has been read */
+	clock->Dt(_dt);
+	clock->Steps(_MaxSteps);
+
 	autocorr.newsize(_MaxSteps);
 	spectrum.newsize(_MaxSteps);
 
-- 
2.43.0


From 064abf42e12b982703b5d368dc1573f14dcffa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 094/111] fix: an unwritable energy file ended the program

---
 src/ProgEigen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 32a7ba6..687e370 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -59,7 +59,7 @@ namespace QDLIB
       sn = _dir + _ename;
       try {
 	 enfile.open(sn.c_str());
-	 if (!enfile.is_open()) throw;
+	 if (!enfile.is_open()) throw ( EIOError("Can not open energy file", sn) );
 
 	 for (int i=0; i < _Nef; i++){
 
-- 
2.43.0


From 8fb7b09cf2c0cbf6309622d940d7d35168084c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:13 +0000
Subject: [PATCH 095/111] fix: a section of the input without entries ended the
 program

---
 src/ChainLoader.cpp   | 10 ++++++++++
 src/ProgCfun.cpp      |  2 ++
 src/ProgEigen.cpp     |  2 ++
 src/ProgFilter.cpp    |  2 ++
 src/ProgOCT.cpp       |  2 ++
 src/ProgPropa.cpp     |  2 ++
 src/tools/XmlNode.cpp |  4 ++++
 7 files changed, 24 insertions(+)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index f2d7f69..4df8cba 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -55,6 +55,8 @@ namespace QDLIB
 
       if (name == "GridSum") { /* Grid sum operator */
 	 child = Onode->NextChild();
+	 if (child == NULL)
+	    throw ( EParamProblem("GridSum is empty") );
 	 child->AdjustElementNode();
 	 Operator *osub;
 	 OGridSystem *gsub;
@@ -86,6 +88,8 @@ namespace QDLIB
 
 	 log.IndentInc();
 	 child = Onode->NextChild();
+	 if (child == NULL)
+	    throw ( EParamProblem("Multistate operator is empty") );
 	 child->AdjustElementNode();
 	 Operator *osub;
 	 OMultistate *matrix = NULL;
@@ -322,6 +326,8 @@ namespace QDLIB
 	 log.cout() << "Multi state wave function:" << endl;
 	 log.IndentInc();
 	 child = WFNode->NextChild();
+	 if (child == NULL)
+	    throw ( EParamProblem("Multi state wave function is empty") );
 	 child->AdjustElementNode();
 
 	 WF = LoadWFMultistate_( child, pm, seqnum);
@@ -341,6 +347,8 @@ namespace QDLIB
 
          /* load the wf from the sub node */
          child = WFNode->NextChild();
+         if (child == NULL)
+            throw ( EParamProblem("Multimap: wave function is missing") );
          child->AdjustElementNode();
 
          WF = LoadWFMultimap_(child, pm, seqnum);
@@ -350,6 +358,8 @@ namespace QDLIB
 	 log.cout() << "Build linear combination from wave functions:" << endl;
 	 log.IndentInc();
 	 child = WFNode->NextChild();
+	 if (child == NULL)
+	    throw ( EParamProblem("Linear combination is empty") );
 	 child->AdjustElementNode();
 
 	 WF = ChainLoader::LoadWFLC_( child,  pm,  seqnum);
diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 6e12b16..bcd72a4 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -399,6 +399,8 @@ namespace QDLIB
 
     /* fetch the ChildNodes */
     ContentNodes_ = CfunNode_.NextChild();
+    if (ContentNodes_ == NULL)
+	 throw ( EParamProblem ("Empty program section") );
 
     /* Load & Init the propagator */
     section = ContentNodes_->FindNode( "propagator" );
diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 687e370..fedf9bd 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -668,6 +668,8 @@ namespace QDLIB
 
       /* Load & Init the propagator */
       _ContentNodes = _EigenNode.NextChild();
+      if (_ContentNodes == NULL)
+	 throw ( EParamProblem ("Empty program section") );
 
       log.Header( "QM Initialization", Logger::Section);
       log.Header( "Propagator: ", Logger::SubSection);
diff --git a/src/ProgFilter.cpp b/src/ProgFilter.cpp
index cfe090e..a591cb0 100644
--- a/src/ProgFilter.cpp
+++ b/src/ProgFilter.cpp
@@ -133,6 +133,8 @@ namespace QDLIB
       wffiles >> &WF;
 
       XmlNode *ContentNodes = _FilterNode.NextChild();
+      if (ContentNodes == NULL)
+         throw ( EParamProblem ("Empty program section") );
 
       /* Post step filters */
       XmlNode *section = ContentNodes->FindNode( "filterdef" );
diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 60c5f8d..18c3ee5 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -812,6 +812,8 @@ namespace QDLIB
 
       /* fetch the ChildNodes */
       _ContentNodes = _octNode.NextChild();
+      if (_ContentNodes == NULL)
+         throw ( EParamProblem ("Empty program section") );
 
       log.Header("QM Initialization", Logger::Section);
       log.Header("Propagator: ", Logger::SubSection);
diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 4e88750..ce38121 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -186,6 +186,8 @@ namespace QDLIB {
       
       /* fetch the ChildNodes */
       _ContentNodes = _propaNode.NextChild();
+      if (_ContentNodes == NULL)
+         throw ( EParamProblem ("Empty program section") );
       
       log.Header( "QM Initialization", Logger::Section);
       log.Header( "Propagator: ", Logger::SubSection);
diff --git a/src/tools/XmlNode.cpp b/src/tools/XmlNode.cpp
index e14efd6..6e7087a 100644
--- a/src/tools/XmlNode.cpp
+++ b/src/tools/XmlNode.cpp
@@ -49,6 +49,10 @@ namespace QDLIB {
             if ( child->_cur_node->type == XML_ELEMENT_NODE ) break;
             child->_cur_node = child->_cur_node->next;
          }
+	 if (child->_cur_node == NULL){ /* No elements at all */
+	    delete child;
+	    return NULL;
+	 }
 	 _child_stack.push(child);
 	 return child;
       } else
-- 
2.43.0


From e010e07bd71345490aa2b842f5d44dcacf52c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:13 +0000
Subject: [PATCH 096/111] fix: a product of no operators was applied

---
 src/qdlib/OProduct.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qdlib/OProduct.cpp b/src/qdlib/OProduct.cpp
index 3ce68c9..ffc177b 100644
--- a/src/qdlib/OProduct.cpp
+++ b/src/qdlib/OProduct.cpp
@@ -54,6 +54,9 @@ namespace QDLIB {
 
     void OProduct::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
     {
+       if (Size() == 0)
+          throw ( EParamProblem("Product operator is empty") );
+
        Get(Size()-1)->Apply(destPsi, sourcePsi);
        
        for (int i=Size()-2; i >= 0; i--)
-- 
2.43.0


From 53282b2a02ae5d42731c6f484eb4cfadc5209e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 097/111] fix: answers of the command session lacked required
 fields

---
 src/CmdHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 8580ad2..5a285ca 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -592,7 +592,9 @@ namespace QDLIB
       gp.Write(s, false);
 
       Response resp;
+      resp.set_response(Response_response_t_OK);
       resp.set_msg(s);
+      resp.set_data_follows(false);
 
       send_response(resp);
    }
@@ -736,6 +738,7 @@ namespace QDLIB
       resp.set_response(Response_response_t_OK);
       resp.add_result(res.real());
       resp.add_result(res.imag());
+      resp.set_data_follows(false);
       send_response(resp);
 
       DELETE_WF(bra);
@@ -770,6 +773,7 @@ namespace QDLIB
       Response resp;
       resp.set_response(Response_response_t_OK);
       resp.add_result(res);
+      resp.set_data_follows(false);
       send_response(resp);
    }
 
-- 
2.43.0


From cb2b3059798a27b19ad83402da9223115c74daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 098/111] fix: a failed command of the session was answered
 with success or crashed

---
 src/CmdHandler.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 5a285ca..d3ea91c 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -380,6 +380,7 @@ namespace QDLIB
       file.Name(cmd.param_s1());
 
       WaveFunction* wf = get_wf(file);
+      if (wf == NULL) return;
 
       // Write to stream
       file.Compress(false);
@@ -570,6 +571,7 @@ namespace QDLIB
 
       if (!cmd.has_param_s1()){
          send_error_message("SET_GLOBAL_PARAMS is missing key/values");
+         return;
       }
 
       ParamContainer pm;
@@ -611,24 +613,32 @@ namespace QDLIB
 
    void CmdHandler::cmd_load_op(Command& cmd)
    {
-      if (!cmd.has_xml())
+      if (!cmd.has_xml()){
          send_error_message("LOAD_OP is missing a XML operator definition");
+         return;
+      }
 
-      get_operator_from_command(cmd);
+      if (get_operator_from_command(cmd) == NULL) return;
 
       send_OK(false);
    }
 
    void CmdHandler::cmd_load_U(Command& cmd)
    {
-      if (!cmd.has_xml())
+      if (!cmd.has_xml()){
          send_error_message("LOAD_U is missing a XML operator definition");
+         return;
+      }
 
-      if (!cmd.has_param_d1())
+      if (!cmd.has_param_d1()){
          send_error_message("LOAD_U is missing a time step");
+         return;
+      }
 
-      if (!cmd.has_param_d2())
+      if (!cmd.has_param_d2()){
          send_error_message("LOAD_U is missing  Nt");
+         return;
+      }
 
       try {
           XmlParser XMLfile;
@@ -659,6 +669,7 @@ namespace QDLIB
    {
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
+      if (Op == NULL) return;
 
       // Chose time step
       if (cmd.has_param_d1()){
@@ -686,6 +697,7 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* wf = get_wf(file);
+      if (wf == NULL) return;
 
       // Send Response
       try {
@@ -718,6 +730,7 @@ namespace QDLIB
 
       WaveFunction* bra = get_wf(file);
       WaveFunction* ket = get_wf(file);
+      if (Op == NULL || bra == NULL || ket == NULL) return;
 
       // Send Response
       try {
@@ -749,6 +762,7 @@ namespace QDLIB
    {
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
+      if (Op == NULL) return;
 
       send_OK(false);
 
@@ -757,6 +771,7 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* bk = get_wf(file);
+      if (bk == NULL) return;
 
       // Send Response
       try {
@@ -767,6 +782,7 @@ namespace QDLIB
          }
       } catch (Exception& e) {
          send_error_message(e.GetMessage());
+         throw (e);
       }
 
       double res = Op->Expec(bk);
-- 
2.43.0


From 7e65dba34ef05ab04518f800d172d18c7b8a8d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 099/111] fix: a command session did not notice the end of its
 input

---
 src/CmdHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index d3ea91c..196bad5 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -810,10 +810,14 @@ namespace QDLIB
          log.coutdbg() << "Waiting for input.." << endl;
          log.flush();
          sin_->read(reinterpret_cast<char*>(&msg_size), sizeof(msg_size));
+         if (!sin_->good())
+            throw (EIOError("Reading the size of the command failed"));
          log.coutdbg() << "msg_size: " << msg_size << endl;
 
          buffer = new char[msg_size];
          sin_->read(reinterpret_cast<char*>(buffer), msg_size);
+         if (!sin_->good())
+            throw (EIOError("Reading the command failed"));
 
          if ( !cmd.ParseFromArray(buffer, msg_size) )
             throw (EParamProblem("Parsing the command from input failed"));
-- 
2.43.0


From c69c06dd8d7157046fa7bf1c82e959fd9612399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 100/111] fix: clearing the objects of a session kept the
 operators

---
 src/CmdHandler.cpp   | 2 +-
 src/GlobalOpList.cpp | 6 ++++--
 src/GlobalOpList.h   | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 196bad5..5a86408 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -606,7 +606,7 @@ namespace QDLIB
     */
    void CmdHandler::cmd_clear_objects()
    {
-      GlobalOpList::Instance().Clear();
+      GlobalOpList::Instance().Clear(true);
       Collector<QDClock>::Instance()->Delete();
       send_OK(false);
    }
diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index 1b26364..80e703d 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -208,14 +208,16 @@ namespace QDLIB {
 
    /**
     * Clear the Operators in the storage, but leave persistent Ops untouched.
+    *
+    * \param all Clear the persistent Ops, too.
     */
-   void QDLIB::GlobalOpList::Clear()
+   void QDLIB::GlobalOpList::Clear(bool all)
    {
       map<string, _OpEntry>::iterator it;
 
       it = _OpStore.begin();
       while ( it != _OpStore.end() ) {
-         if ( ! ((*it).second).persist ) {
+         if ( all || ! ((*it).second).persist ) {
             DELETE_OP(((*it).second).Op);
             _OpStore.erase(it);
             it = _OpStore.begin(); /* iterator is now invalid => start over */
diff --git a/src/GlobalOpList.h b/src/GlobalOpList.h
index 4ee35d1..d25e44f 100644
--- a/src/GlobalOpList.h
+++ b/src/GlobalOpList.h
@@ -43,7 +43,7 @@ namespace QDLIB {
          static GlobalOpList& Instance();
          static void Destroy();
          
-         void Clear();
+         void Clear(bool all = false);
          
          void Add(string &key, Operator* op, bool persist = false);
          
-- 
2.43.0


From 6e826edf4c2fffb5815236cac3a4a6d262f7510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 101/111] fix: an empty global directory was read out of bounds

---
 src/CmdHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 5a86408..4dbef01 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -107,7 +107,7 @@ namespace QDLIB
 
       if (gp.isPresent("dir")) {
          gp.GetValue("dir", dir);
-         if (dir[dir.length() - 1] != '/' && !dir.empty())
+         if (!dir.empty() && dir[dir.length() - 1] != '/')
             dir += "/";
          gp.SetValue("dir", dir);
       }
-- 
2.43.0


From 50b9050ed69ccfbca9f3d8599fe58b1ef427fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 102/111] fix: ending a session before its first command freed
 an arbitrary address

---
 src/CmdHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 4dbef01..2a8381c 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -240,7 +240,7 @@ namespace QDLIB
    /**
     * Initialize interactive mode with given I/O streams to exchange commands.
     */
-   CmdHandler::CmdHandler(istream& in, ostream& out) : fifo_(NULL), sin_(&in), sout_(&out)
+   CmdHandler::CmdHandler(istream& in, ostream& out) : buffer(NULL), fifo_(NULL), sin_(&in), sout_(&out)
    {
       // this is a dummy, make sure fft handler is up early.
       // fixes the problem of segfaults in the destruction process.
-- 
2.43.0


From dc4dfba99f47c94e4e6b0b5a3094d81f45f3085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 103/111] fix: a session used operators that were never
 initialised

---
 src/CmdHandler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 2a8381c..c7d0f1c 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -701,7 +701,7 @@ namespace QDLIB
 
       // Send Response
       try {
-         if (!Op->Valid(wf)) Op->Init(wf);
+         Op->Init(wf);
          if (!Op->Valid(wf)) {
             send_error_message("Operator initialized with incompatible wfs");
             return;
@@ -734,7 +734,7 @@ namespace QDLIB
 
       // Send Response
       try {
-         if (!Op->Valid(bra)) Op->Init(bra);
+         Op->Init(bra);
          if (!Op->Valid(bra) || !Op->Valid(ket)) {
             send_error_message("Operator initialized with incompatible wfs");
             return;
@@ -775,7 +775,7 @@ namespace QDLIB
 
       // Send Response
       try {
-         if (!Op->Valid(bk)) Op->Init(bk);
+         Op->Init(bk);
          if (!Op->Valid(bk)) {
             send_error_message("Operator initialized with incompatible wfs");
             return;
-- 
2.43.0


From f29c6294aa29388e09ed6bb40e3bcd758ea4111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 104/111] fix: the general split operator was never valid

---
 src/qdlib/OGSPO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index b53a262..a43c898 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -162,7 +162,7 @@ namespace QDLIB
 
    bool OGSPO::Valid(WaveFunction *Psi)
    {
-      bool valid = false;
+      bool valid = _spoLen > 0;
 
       for (int i = 0; i < _spoLen; i++) {
          if (_ops[i]->Valid(Psi) == false)
-- 
2.43.0


From 82ab906567bc0b319aef668f3a021a204f593b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:54 +0000
Subject: [PATCH 105/111] fix: lasers and matrices could not be read or written
 by a session

---
 src/qdlib/Laser.h            | 3 ++-
 src/qdlib/OHermitianMatrix.h | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/Laser.h b/src/qdlib/Laser.h
index a04747b..1876b9f 100644
--- a/src/qdlib/Laser.h
+++ b/src/qdlib/Laser.h
@@ -10,6 +10,7 @@
 #include "tools/QDClock.h"
 #include "fft/fft.h"
 #include "tools/FileSingle.h"
+#include "qdlib/Serializable.h"
 
 namespace QDLIB
 {
@@ -17,7 +18,7 @@ namespace QDLIB
    /**
     * Class which represents a laser field.
     */
-   class Laser : public dVec
+   class Laser : public dVec, public Serializiable
    {
       public:
          typedef FileSingle<Laser> FileLaser;
diff --git a/src/qdlib/OHermitianMatrix.h b/src/qdlib/OHermitianMatrix.h
index 7fa0f50..e36c95d 100644
--- a/src/qdlib/OHermitianMatrix.h
+++ b/src/qdlib/OHermitianMatrix.h
@@ -6,6 +6,7 @@
 #define OHERMAT_H
 
 #include "qdlib/ODSpace.h"
+#include "qdlib/Serializable.h"
 #include "tools/FileSingle.h"
 #include "qdlib/TransformMat.h"
 
@@ -25,7 +26,7 @@ namespace QDLIB
     *
     * \todo modify matrix classes to provide real, efficient hermitian matrices.
     */
-   class OHermitianMatrix: public dMat, public ODSpace
+   class OHermitianMatrix: public dMat, public ODSpace, public Serializiable
    {
       public:
          typedef FileSingle<OHermitianMatrix> FileMatrix;
@@ -81,6 +82,8 @@ namespace QDLIB
 
          OHermitianMatrix& operator=(OHermitianMatrix &O);
 
+         virtual ParamContainer& Params() { return Operator::Params(); }
+
          virtual void Serialize (std::ostream& os);
 
          virtual void DeSerialize (std::istream& is);
-- 
2.43.0


From c477aea9daffa0bda36a630cb8010778740297fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:54 +0000
Subject: [PATCH 106/111] fix: a session failed without an answer on operators
 it can not handle

---
 src/CmdHandler.cpp | 65 +++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index c7d0f1c..031eda6 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -450,16 +450,23 @@ namespace QDLIB
          return;
       }
 
-      Operator* op = ModuleLoader<Operator>::Instance()->Load(cmd.param_s2());
+      Operator* op = NULL;
+      Serializiable* ser = NULL;
 
-      if (op == NULL)
-         throw(EParamProblem("Operator module not found"));
+      try {
+         op = ModuleLoader<Operator>::Instance()->Load(cmd.param_s2());
 
+         if (op == NULL)
+            throw(EParamProblem("Operator module not found"));
 
-      Serializiable* ser = dynamic_cast<Serializiable*>(op);
+         ser = dynamic_cast<Serializiable*>(op);
 
-      if (ser == NULL)
-         throw(EIncompatible("Not a serializable object", op->Name()));
+         if (ser == NULL)
+            throw(EIncompatible("Not a serializable object", op->Name()));
+      } catch (Exception& e) {
+         send_error_message(e.GetMessage());
+         throw(e);
+      }
 
       // Read Operator from file
       FileSingle<Serializiable> file;
@@ -504,27 +511,32 @@ namespace QDLIB
       // Load respective class
       Operator* op=NULL;
       Laser* laser=NULL;
-      Serializiable* ser;
+      Serializiable* ser = NULL;
 
-      if (cmd.param_s2() == "Laser") {
-         laser = new Laser();
-         ser = dynamic_cast<Serializiable*>(laser);
-      } else {
-         string op_name(cmd.param_s2());
-         if (op_name.length() == 0)
-            throw(EParamProblem("Empty operator name"));
+      try {
+         if (cmd.param_s2() == "Laser") {
+            laser = new Laser();
+            ser = dynamic_cast<Serializiable*>(laser);
+         } else {
+            string op_name(cmd.param_s2());
+            if (op_name.length() == 0)
+               throw(EParamProblem("Empty operator name"));
 
-         if (op_name[0] == 'O') op_name.erase(0, 1); // Kill the leading O
+            if (op_name[0] == 'O') op_name.erase(0, 1); // Kill the leading O
 
-         op = ModuleLoader<Operator>::Instance()->Load(op_name);
+            op = ModuleLoader<Operator>::Instance()->Load(op_name);
 
-         if (op == NULL)
-            throw(EParamProblem("Operator module not found"));
+            if (op == NULL)
+               throw(EParamProblem("Operator module not found"));
 
-         ser = dynamic_cast<Serializiable*>(op);
+            ser = dynamic_cast<Serializiable*>(op);
 
-         if (ser == NULL)
-            throw(EIncompatible("Not a serializable object", op->Name()));
+            if (ser == NULL)
+               throw(EIncompatible("Not a serializable object", op->Name()));
+         }
+      } catch (Exception& e) {
+         send_error_message(e.GetMessage());
+         throw (e);
       }
 
       send_OK(false);
@@ -732,21 +744,21 @@ namespace QDLIB
       WaveFunction* ket = get_wf(file);
       if (Op == NULL || bra == NULL || ket == NULL) return;
 
-      // Send Response
+      dcomplex res;
+
       try {
          Op->Init(bra);
          if (!Op->Valid(bra) || !Op->Valid(ket)) {
             send_error_message("Operator initialized with incompatible wfs");
             return;
          }
+         res = Op->MatrixElement(bra, ket);
       } catch (Exception& e) {
          send_error_message(e.GetMessage());
          throw(e);
       }
 
       // Send response
-      dcomplex res = Op->MatrixElement(bra, ket);
-
       Response resp;
       resp.set_response(Response_response_t_OK);
       resp.add_result(res.real());
@@ -773,19 +785,20 @@ namespace QDLIB
       WaveFunction* bk = get_wf(file);
       if (bk == NULL) return;
 
-      // Send Response
+      double res;
+
       try {
          Op->Init(bk);
          if (!Op->Valid(bk)) {
             send_error_message("Operator initialized with incompatible wfs");
             return;
          }
+         res = Op->Expec(bk);
       } catch (Exception& e) {
          send_error_message(e.GetMessage());
          throw (e);
       }
 
-      double res = Op->Expec(bk);
       Response resp;
       resp.set_response(Response_response_t_OK);
       resp.add_result(res);
-- 
2.43.0


From 898031832ccebd20c30344d484968a3ac35a5bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:05 +0000
Subject: [PATCH 107/111] fix: an optimal control description that is refused
 no longer deletes an operator that was never set

---
 src/ProgOCT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 18c3ee5..42e161e 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -18,10 +18,10 @@ namespace QDLIB
 {
 
    ProgOCT::ProgOCT(XmlNode &OCTNode) :
-      _octNode(OCTNode), _ContentNodes(NULL), _fname(DEFAULT_BASENAME_LASER), _dir(""),
+      _octNode(OCTNode), _ContentNodes(NULL), _fname(DEFAULT_BASENAME_LASER), _dir(""), _writeyield(false),
                _iterations(DEFAULT_ITERATIONS), _convergence(DEFAULT_CONVERGENCE), _writel(false),
                _method(krotov), _coupling(dipole), _ttype(ov), _phase(false),
-               _ntargets(1), _mv(false), _alpha(1), _Gobbler(NULL), _opwf(NULL)
+               _ntargets(1), _mv(false), _alpha(1), _U(NULL), _Coup(NULL), _Gobbler(NULL), _nlaser(0), _opwf(NULL)
    {
       for (int i = 0; i < MAX_TARGETS; i++) {
          PsiI[i] = NULL;
-- 
2.43.0


From 220ddf767757c5e3ffb821cb2026e55faef616cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:05 +0000
Subject: [PATCH 108/111] fix: Rabitz feedback with operator targets applies
 the operator to the functions at the final time

---
 src/ProgOCT.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 42e161e..20f0837 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -612,14 +612,15 @@ namespace QDLIB
       if (step == 1) {
          PropagateForward(phii);
       }
-      for (int t=0; t < _ntargets; t++)
-         *(phii[t]) =  _memwfbuf[t][0];
 
       /* Create target */
       if (_ttype == op)
          for (int t = 0; t < _ntargets; t++)
             _Otarget[t]->Apply(phit[t], phii[t]);
 
+      for (int t=0; t < _ntargets; t++)
+         *(phii[t]) =  _memwfbuf[t][0];
+
       /* Propagate Target Backward with new field (1) */
       clock->End();
       
-- 
2.43.0


From 068d3598a12d602f8211f4068f1ac3e94fec8710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:05 +0000
Subject: [PATCH 109/111] fix: the backward propagation of Rabitz feedback uses
 the field it calculates

---
 src/ProgOCT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 20f0837..a290393 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -639,7 +639,7 @@ namespace QDLIB
 
 
          for (int l = 0; l < _nlaser; l++)
-            _laserb[l]->Set(laser);
+            _laserf[l]->Set(laser); /* the propagator sees this one: the fields have been exchanged */
 
          /* Save back steps */
          for (int t=0; t < _ntargets; t++)
-- 
2.43.0


From 9f0cf63d53b4bd8098d93b4f032f179bdf904f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:05 +0000
Subject: [PATCH 110/111] fix: moving targets are no longer overwritten by the
 propagation of the initial guess

---
 src/ProgOCT.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index a290393..89454b3 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -457,7 +457,7 @@ namespace QDLIB
    {
       QDClock *clock = QDGlobalClock::Instance(); /* use the global clock */
 
-      for (int t = 0; t < _ntargets; t++) /* Save t=0 */
+      for (int t = 0; t < _ntargets && !_mv; t++) /* Save t=0, keep moving targets */
          _memwfbuf[t].Set(0, wf[t]);
 
       clock->Begin();
@@ -468,7 +468,8 @@ namespace QDLIB
                _Gobbler->Apply(wf[t]);
                wf[t]->Normalize();
             }
-            _memwfbuf[t].Set(s + 1, wf[t]);
+            if (!_mv)
+               _memwfbuf[t].Set(s + 1, wf[t]);
          }
          ++(*clock);
       }
-- 
2.43.0


From bd96f8613b846405508e332b25ecd865159803ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:49 +0000
Subject: [PATCH 111/111] fix: the compression utility refused its own default
 method

---
 src/qdz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdz.cpp b/src/qdz.cpp
index fc8d5f8..59e4c60 100644
--- a/src/qdz.cpp
+++ b/src/qdz.cpp
@@ -36,7 +36,7 @@ void PrepareCmdline(Getopt &cmdline)
                    "compression level (0=no compression, 9=best & slowest)", "4");
 
    cmdline.SetHelp('m', "compression method", false,
-                   "compression method (z=zlib [default], j=bzip2)", "m");
+                   "compression method (z=zlib [default], j=bzip2)", "z");
 
 
 }
-- 
2.43.0

