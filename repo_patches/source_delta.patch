From 4bff440b89975bfef8d93c9819a0fb409cc9186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:47 +0000
Subject: [PATCH 01/38] fix: locate only real zero function crossings in
 LinearOdeEventController

One-directional zero functions fired (or tripped an assertion) while staying
on the side they do not watch, two-directional ones reported the crossing they
had just had again, and a crossing exactly at the end of the step was dropped.
---
 .../ode/LinearOdeEventController.h            | 34 +++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 9405d31..ad21a59 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -76,8 +76,11 @@ class LinearOdeEventController :
                 auto zf1 = m_zf1[i];
                 auto zf2 = m_zf2[i];
                 real_type t = zf1 / ( zf1 - zf2 );
-                ASSERT (t >= 0);
-                if( tmin > t ) {
+                if( !(t > 0) )
+                    t = 0;      // Zero at the beginning of the step
+                else if( t > 1 )
+                    t = 1;
+                if( itmin == ~0u   ||   tmin > t ) {
                     tmin = t;
                     itmin = i;
                     }
@@ -92,7 +95,7 @@ class LinearOdeEventController :
 
             // Switch state
             std::fill( m_transitions.begin(), m_transitions.end(), 0 );
-            auto currentTransitionType = s( m_zf2[itmin] );
+            auto currentTransitionType = crossingDirection( itmin );
             m_transitions[itmin] = currentTransitionType;
             // m_state[itmin] = ( m_zfflags[itmin] & OdeRhs<VD>::BothDirections ) == OdeRhs<VD>::BothDirections ?   m_transitions[itmin] :   0;
             rhs->switchPhaseState( m_transitions.data(), t2, x2 );
@@ -110,6 +113,8 @@ class LinearOdeEventController :
                 bool recompute = (zff & OdeRhs<VD>::RecomputeAfterSwitch) != 0;
                 if (recompute)
                     zf = m_zfbuf[i];
+                else if (i == itmin)
+                    zf = 0;
                 else
                     zf = zf*( 1. - tmin ) + m_zf2[i]*tmin;
                 auto& st = m_state[i];
@@ -183,17 +188,34 @@ class LinearOdeEventController :
                 }
             }
 
+        // Direction in which the i-th zero function crosses zero
+        int crossingDirection( unsigned int i ) const
+            {
+            if( auto result = s( m_zf2[i] ) )
+                return result;
+            switch( m_zfflags[i] & OdeRhs<VD>::BothDirections ) {
+                case OdeRhs<VD>::MinusPlus:
+                    return 1;
+                case OdeRhs<VD>::PlusMinus:
+                    return -1;
+                default:
+                    return -m_state[i];
+                }
+            }
+
         bool xz( unsigned int i ) const
             {
+            auto x1 = m_zf1[i];
             auto x2 = m_zf2[i];
             auto st = m_state[i];
             switch( m_zfflags[i] & OdeRhs<VD>::BothDirections ) {
                 case OdeRhs<VD>::MinusPlus:
-                    return ( st == -1   &&   x2 >= 0 )   ||   ( st == 0   &&   x2 > 0 );
+                    return ( ( st == -1   ||   x1 < 0 )   &&   x2 >= 0 )   ||   ( st == 0   &&   x1 == 0   &&   x2 > 0 );
                 case OdeRhs<VD>::PlusMinus:
-                    return ( st == 1   &&   x2 <= 0 )   ||   ( st == 0   &&   x2 < 0 );
+                    return ( ( st == 1   ||   x1 > 0 )   &&   x2 <= 0 )   ||   ( st == 0   &&   x1 == 0   &&   x2 < 0 );
                 case OdeRhs<VD>::BothDirections:
-                    return s(x2) != st;
+                    // Staying at zero or returning to the zero the function has just crossed is not a crossing
+                    return st == 0 ?   x2 != 0 :   s(x2) == -st   ||   ( x2 == 0   &&   x1 != 0 );
                 default:
                     ASSERT( false );    // Reaching here means invalid zero function flags
                     return false;
-- 
2.43.0


From b412872b01f5eec0afa144e5ea9adc849393e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 02/38] fix: reset the event controller when a solver gets a
 new initial state

OdeSolverGragg, OdeSolverImplicitEuler and the Rosenbrock solvers kept the zero
function values of the state they had before.
---
 include/ode_num_int/ode/OdeSolverGragg.h            | 2 ++
 include/ode_num_int/ode/OdeSolverImplicitEuler.h    | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverGragg.h b/include/ode_num_int/ode/OdeSolverGragg.h
index 3607889..ee1b4ff 100644
--- a/include/ode_num_int/ode/OdeSolverGragg.h
+++ b/include/ode_num_int/ode/OdeSolverGragg.h
@@ -59,6 +59,8 @@ class OdeSolverGragg :
             m_initialTime = initialTime;
             m_initialU = initialState;
             m_stepsRunning = false;
+            if( auto ec = this->eventController() )
+                ec->reset();
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index bfb01c5..767160b 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -73,6 +73,8 @@ class OdeSolverImplicitEuler :
             m_mapping4Newton->setInitialState( initialTime, initialState );
             if( !soft )
                 m_hardResetRequested = true;
+            if( auto ec = this->eventController() )
+                ec->reset();
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 7a5c16a..b639c86 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -56,6 +56,8 @@ class OdeSolverRosenbrock_SW2_4 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( soft )
                 // Compute ODE RHS at the beginning of the step
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index c80a6f0..f273027 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -49,6 +49,8 @@ class OdeSolverRosenbrock_W1 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( !soft )
                 cleanupStep();
-- 
2.43.0


From 6ccb8c76b2c519c60659886b544c600de5dd8fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 03/38] fix: set the step size before announcing the first step

Explicit Runge-Kutta and extrapolation solvers passed an uninitialised step
size to the pre-step observers in the first step after setInitialState(), and
Rosenbrock solvers ignored the default initial step size.
---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 2 +-
 include/ode_num_int/ode/OdeSolverExplicitRK.h         | 2 +-
 include/ode_num_int/ode/OdeSolverExtrapolator.h       | 2 +-
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h   | 2 +-
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 6c71ee0..1ac787a 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -74,12 +74,12 @@ class OdeSolverExplicitEmbeddedRK :
         void doStep()
             {
             while( true ) {
+                initStep();
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                initStep();
 
                 auto rhs = this->odeRhs();
 
diff --git a/include/ode_num_int/ode/OdeSolverExplicitRK.h b/include/ode_num_int/ode/OdeSolverExplicitRK.h
index c98e824..fd759bc 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitRK.h
@@ -49,12 +49,12 @@ class OdeSolverExplicitRK :
 
         void doStep()
             {
+            initStep();
             this->odeSolverPreObservers( m_h, this );
 
             OpaqueTickCounter timer;    // deBUG
 
             timer.Start();
-            initStep();
 
             auto rhs = this->odeRhs();
 
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index ef3c540..dce62bd 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -89,12 +89,12 @@ class OdeSolverExtrapolator :
         void doStep()
             {
             while( true ) {
+                initStep();
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                initStep();
 
                 auto rhs = this->odeRhs().get();
 
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index b639c86..add84fb 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -31,7 +31,7 @@ class OdeSolverRosenbrock_SW2_4 :
             m_d( 1 ),
             m_disable_error_check( false ),
             m_initialTime( 0 ),
-            m_h( 0 )
+            m_h( this->initialStepSize() )
             {}
 
         void setInitialStepSize( real_type initialStepSize )
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index f273027..8dcc1ab 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -24,7 +24,7 @@ class OdeSolverRosenbrock_W1 :
             OdeSolverEventController<VD>( *this, "linear" ),
             m_d( 1 ),
             m_initialTime( 0 ),
-            m_h( 0 )
+            m_h( this->initialStepSize() )
             {}
 
         void setInitialStepSize( real_type initialStepSize )
-- 
2.43.0


From d3c26c82ea4c4ab59be9514c5029a678c2214f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 04/38] fix: report the step size of the attempt to the
 observers of OdeSolverExtrapolator

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index dce62bd..d898f76 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -194,7 +194,7 @@ class OdeSolverExtrapolator :
 
                 // Invoke observers
                 this->odeSolverPostObservers( OdeSolverPostObserverArg<VD>(
-                    m_h, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
+                    hcur, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
 
                 this->tstat4.add( timer.Lap() );
 
-- 
2.43.0


From 791f790748ab469fee28f357dc17d762cf3513d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 05/38] fix: OdeSolverExtrapolator with one stage has no error
 estimate

The error was computed from an element past the end of the extrapolation table.
---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index d898f76..ebec951 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -153,7 +153,7 @@ class OdeSolverExtrapolator :
 
                 // Compute error norm
                 real_type errorNorm = 0;
-                if( !m_disable_error_check ) {
+                if( !m_disable_error_check   &&   m_max_stages > 1 ) {
                     auto& err = m_T[1];
                     err *= -1;
                     err += nextState;
-- 
2.43.0


From cc743dd6f2d0c779a3b1d5436105b103a0c39f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 06/38] fix: OdeSolverExtrapolator with no initial time or
 reference solver

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index ebec951..cd34edc 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -32,7 +32,8 @@ class OdeSolverExtrapolator :
             OdeSolverErrorNormCalculator<VD>( *this, "inf" ),
             m_symmetric( false ),
             m_disable_error_check( false ),
-            m_max_stages( 4 )
+            m_max_stages( 4 ),
+            m_initialTime( 0 )
             {
             this->onOdeRhsChanged( getSyncOdeRhs() );
             }
@@ -81,7 +82,7 @@ class OdeSolverExtrapolator :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
-            if( !soft )
+            if( !soft   &&   m_referenceSolver )
                 m_referenceSolver->setInitialState( initialTime, initialState, false );
             cleanupStep();
             }
@@ -231,7 +232,7 @@ class OdeSolverExtrapolator :
 
         Parameters helpOnParameters() const
             {
-            Parameters result;
+            Parameters result = OdeSolver<VD>::helpOnParameters();
             result["disable_error_check"] = "Disable error check and always use the initial step size.";
             result["step_sequence"] = this->appendNestedHelp( stepSequence(), "The type of step size sequence for the extrapolation." );
             result["reference_solver"] = this->appendNestedHelp( m_referenceSolver, "Reference solver to use." );
-- 
2.43.0


From 00eff454e28eb24bc1583fc58914d17fe81c9e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 07/38] fix: the substeps of OdeSolverExtrapolator must not
 process events

The reference solver's own event controller switched the model in the middle
of trial substeps, even in attempts that are rejected afterwards.
---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index cd34edc..415fe94 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -296,8 +296,12 @@ class OdeSolverExtrapolator :
 
         void syncOdeRhs()
             {
-            if( m_referenceSolver )
+            if( m_referenceSolver ) {
                 m_referenceSolver->setOdeRhs( this->odeRhs() );
+                // Events are processed for the entire step only
+                if( auto ech = dynamic_cast< OdeEventControllerHolder<VD>* >( m_referenceSolver.get() ) )
+                    ech->setEventController( nullptr );
+                }
             }
 
         std::function<void()> getSyncOdeRhs() {
-- 
2.43.0


From e22f0b9f45c50fa3d8d20f5d2927cb48a06c70ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 08/38] fix: the predictor of OdeSolverImplicitEuler must not
 process events

The predictor's own event controller switched the model before the step.
---
 include/ode_num_int/ode/OdeSolverImplicitEuler.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 767160b..6ae6d86 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -93,6 +93,9 @@ class OdeSolverImplicitEuler :
 
             if( m_predictor ) {
                 m_predictor->setOdeRhs( this->odeRhs() );
+                // Events are processed for the corrected step only
+                if( auto ech = dynamic_cast< OdeEventControllerHolder<VD>* >( m_predictor.get() ) )
+                    ech->setEventController( nullptr );
                 m_predictor->setInitialStepSize( h/m_predictorSteps );
                 m_predictor->setInitialState( initialTime, initialState );
                 for( auto istep=0u; istep<m_predictorSteps; ++istep )
-- 
2.43.0


From ca866b56d0685cad51dc24b024f269439752ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 09/38] fix: Rosenbrock solvers use the Jacobian with respect
 to all variables

The columns of the last second-order velocities and first-order variables were
not computed when there were second-order variables.
---
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index f656cc7..5afe60b 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -115,7 +115,7 @@ class OdeSolverRosenbrock_W_base :
                 SparseMatrix Jm( m_n2+m_n1, m_n2+m_n1 );
                 V x = initialState;
                 V f( m_n );
-                for( unsigned int i=istart; i<isize; ++i ) {
+                for( unsigned int i=istart; i<istart+isize; ++i ) {
                     x[i] += dx;
                     rhs->rhs( f, initialTime, x );
                     x[i] = initialState[i];
-- 
2.43.0


From 5d9f1c432361805bf8b9544fe9c566edf45fdb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 10/38] fix: OdeSolverRosenbrock_SW2_4 retries a rejected step
 with the matrix for the new step size

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index add84fb..81850f6 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -68,18 +68,13 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void doStep()
             {
-            bool needInitStep = true;
-
             while( true ) {
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                if( needInitStep ) {
-                    needInitStep = false;
-                    initStep();
-                    }
+                initStep();
 
                 auto rhs = this->odeRhs();
 
-- 
2.43.0


From ed7795a39c6f1eb004ecd9fb6abc46598614b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 11/38] fix: LUFactorizer takes the elements filled in during
 the factorization into account

The last column of a row was taken from the sparsity pattern of the matrix
instead of that of its factors, so elements of U were left out when solving.
---
 include/ode_num_int/lu/LUFactorizer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index afd1744..f0f665b 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -73,7 +73,6 @@ class LUFactorizer
                 auto c = it->first.second;
                 setMin( m_p[r], c );
                 setMin( m_q[c], r );
-                setMax( m_s[r], c );
                 }
 
             // Verify m_p and m_q
@@ -84,6 +83,11 @@ class LUFactorizer
                     throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
 
+            // Compute m_s according to the layout of U
+            for( unsigned int c=0; c<n; ++c )
+                for( unsigned int r=m_q[c]; r<=c; ++r )
+                    setMax( m_s[r], c );
+
             // Compute address sequences for triangular matrices m_l, m_u
             auto initTriangularMatrix = [n](
                     std::vector<real_type>& m,
-- 
2.43.0


From fc789bd67f93787fb77a118972f427733ceef6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 12/38] fix: LUFactorizer::setMatrixFast() accepts a matrix
 larger than the previous one

---
 include/ode_num_int/lu/LUFactorizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index f0f665b..482196d 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -143,7 +143,7 @@ class LUFactorizer
                 ++elementsSet;
                 auto r = it->first.first;
                 auto c = it->first.second;
-                if (!setLU(r, c, it->second)) {
+                if (r >= size() || c >= size() || !setLU(r, c, it->second)) {
                     // Fall back to setMatrix because the sparsity layout has changed
                     setMatrix(matrixBegin, matrixEnd);
                     return;
-- 
2.43.0


From 4399620e52109ef1123f90f9c5113b32b14d5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 13/38] fix: VectorNarrowingMapping::map() drops the disabled
 outputs

---
 include/ode_num_int/alg/VectorNarrowingMapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/VectorNarrowingMapping.h b/include/ode_num_int/alg/VectorNarrowingMapping.h
index 2f1e7f2..38bf1a4 100644
--- a/include/ode_num_int/alg/VectorNarrowingMapping.h
+++ b/include/ode_num_int/alg/VectorNarrowingMapping.h
@@ -114,7 +114,7 @@ class VectorNarrowingMapping :
             this->mapping()->map( *pdst, *px );
 
             if( !m_disabledOutputIndices.empty() )
-                reduce( dst, dsts, m_disabledInputIndices );
+                reduce( dst, dsts, m_disabledOutputIndices );
             }
 
         std::vector<unsigned int> inputIds() const {
-- 
2.43.0


From e4231322f1fa779352e9186a15728c111f640a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 14/38] fix: NewtonSolver reports divergence when a hard reset
 cannot help or is already tried

---
 include/ode_num_int/alg/NewtonSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index c0aff89..db74aa3 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -73,7 +73,7 @@ class NewtonSolver :
                             if( maybeAdjustRegularizationParameter() )
                                 break;
                             ddir->reportSuccess( false );
-                            if( !hardResetTried ) {
+                            if( !hardResetTried   &&   ddir->hardResetMayHelp() ) {
                                 breakLoop = true;
                                 break;
                                 }
-- 
2.43.0


From 3604944287bbc4292f3b43e9f879aa8c0dcb3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 15/38] fix: DefaultJacobianProvider forgets the Jacobian on
 hard reset

---
 include/ode_num_int/alg/DefaultJacobianProvider.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ode_num_int/alg/DefaultJacobianProvider.h b/include/ode_num_int/alg/DefaultJacobianProvider.h
index f48e696..53f9b09 100644
--- a/include/ode_num_int/alg/DefaultJacobianProvider.h
+++ b/include/ode_num_int/alg/DefaultJacobianProvider.h
@@ -19,6 +19,10 @@ class DefaultJacobianProvider :
         typedef typename VD::value_type real_type;
         typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<real_type> > FastSparseMatrix;
 
+        void hardReset() {
+            m_J = FastSparseMatrix();
+            }
+
         void computeJacobian( const V& x0 )
             {
             if( auto jt = this->jacobianTrimmer() )
-- 
2.43.0


From 47db6ba1c65e12f101685c29b31d3a68291b94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 16/38] fix: Broyden update of a Jacobian with absent elements

---
 .../alg/JacobianBroydenUpdateNewtonDescentDirection.h        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index 19689cd..024e5de 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -56,12 +56,15 @@ class JacobianBroydenUpdateNewtonDescentDirection :
                 left *= 1 / dx.euclideanNormSquare();
                 unsigned int n = x0.size();
                 ASSERT( J.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
+                sparse::SparseMatrix<real_type> updatedJ;
+                updatedJ = J;
                 for( unsigned int i=0; i<n; ++i )
                     for( unsigned int j=0; j<n; ++j ) {
                         real_type x = left[i] * dx[j];
                         if( x != 0 )
-                            J.at( i, j ) += x;
+                            updatedJ.at( i, j ) += x;
                         }
+                J = updatedJ;
                 }
             m_xprev = x0;
             m_fprev = f0;
-- 
2.43.0


From da7181fe232631b58decf332e7096a7edbaae4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 17/38] fix: SpecifiedOdeInitState accepts a smaller size

---
 include/ode_num_int/ode/SpecifiedOdeInitState.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/SpecifiedOdeInitState.h b/include/ode_num_int/ode/SpecifiedOdeInitState.h
index e3fe7ca..5eeb1fa 100644
--- a/include/ode_num_int/ode/SpecifiedOdeInitState.h
+++ b/include/ode_num_int/ode/SpecifiedOdeInitState.h
@@ -58,7 +58,8 @@ class SpecifiedOdeInitState :
             int n0 = m_initialState.size();
             if( n != n0 ) {
                 m_initialState.resize( n );
-                std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
+                if( n > n0 )
+                    std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
                 }
             }
 
-- 
2.43.0


From 3c289e2f2ee3220c15757b0ca8decb97b299525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 18/38] fix: OdeStepMappingEuler recomputes the derivative when
 the right-hand side is replaced

---
 include/ode_num_int/ode/OdeStepMappingEuler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeStepMappingEuler.h b/include/ode_num_int/ode/OdeStepMappingEuler.h
index abdda10..f8da9a6 100644
--- a/include/ode_num_int/ode/OdeStepMappingEuler.h
+++ b/include/ode_num_int/ode/OdeStepMappingEuler.h
@@ -22,7 +22,9 @@ class OdeStepMappingEuler :
             m_h( 0.1 ),
             m_t0( 0 ),
             m_f0scaledValid( false )
-            {}
+            {
+            this->onOdeRhsChanged( [this] { m_f0scaledValid = false; } );
+            }
 
         // VectorMapping interface
         unsigned int inputSize() const
-- 
2.43.0


From 99371b45a8f59883e088a891ff811687c97449d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 19/38] fix: SparseJacobianProvider forgets the layout when the
 trimmer changes

---
 include/ode_num_int/alg/SparseJacobianProvider.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/SparseJacobianProvider.h b/include/ode_num_int/alg/SparseJacobianProvider.h
index 5d67cf1..a5b363f 100644
--- a/include/ode_num_int/alg/SparseJacobianProvider.h
+++ b/include/ode_num_int/alg/SparseJacobianProvider.h
@@ -22,7 +22,9 @@ class SparseJacobianProvider :
 
         SparseJacobianProvider() :
             m_Jcalc( &m_J )
-            {}
+            {
+            this->onJacobianTrimmerChanged( [this] { m_J = FastSparseMatrix(); } );
+            }
 
         SparseJacobianProvider( const SparseJacobianProvider<VD>& ) = delete;
         SparseJacobianProvider<VD>& operator=( const SparseJacobianProvider<VD>& ) = delete;
-- 
2.43.0


From 7f0b16b9079317f76adb8a64d7e643ff5896bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 20/38] fix: reject values out of range when converting an
 optional parameter to unsigned int

---
 include/ode_num_int/infra/OptionalParameters.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index bbf3438..4c4d3b9 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -166,7 +166,10 @@ class OptionalParameters
                     {
                     if( !lang::IsIntegerNumber( m_value.c_str() ) )
                         throw cxx::exception( std::string("Not an integer number: '") + m_value + "'");
-                    dst = static_cast<unsigned int>( std::stoul( m_value ) );
+                    auto x = std::stoll( m_value );
+                    if( x < 0   ||   x > static_cast<long long>( ~0u ) )
+                        throw cxx::exception( std::string("Not an unsigned integer number: '") + m_value + "'");
+                    dst = static_cast<unsigned int>( x );
                     }
 
                 void toType( bool& dst ) const
-- 
2.43.0


From 51121e5df07eaf9a7878e90a6843e4db0b2a65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 21/38] fix: element access by row and column in sparse matrix
 views

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 52c865f..07a982e 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -340,7 +340,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -359,7 +359,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             return m_source.at( sourceIndex(index) );
             }
 
-        element_type at( unsigned int r, unsigned int c ) const {
+        element_type& at( unsigned int r, unsigned int c ) {
             return at( Index( r, c ) );
             }
 
@@ -548,7 +548,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -567,7 +567,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             return m_source.at( transposedIndex(index) );
             }
 
-        element_type at( unsigned int r, unsigned int c ) const {
+        element_type& at( unsigned int r, unsigned int c ) {
             return at( Index( r, c ) );
             }
 
-- 
2.43.0


From 26665058512ae25c21ab18c01a9d7915570df8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 22/38] fix: size of a transposed sparse matrix view

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 07a982e..4f296af 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -998,7 +998,7 @@ class SparseMatrixTemplate : public D
             {
             return SparseMatrixTemplate< SparseMatrixProxy::Transpose< D > >(
                         SparseMatrixProxy::Transpose< D >( *this ),
-                        m_size );
+                        Index( m_size.second, m_size.first ) );
             }
 
         SparseMatrixTemplate<matrix_data_type> clone() const {
-- 
2.43.0


From cc2f0b71d960bbafc8572f6ef1a43dcaf0ef098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 23/38] fix: size of the product of a vector and a sparse
 matrix

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 4f296af..b01ed46 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -1075,7 +1075,7 @@ template< class DM, class DV >
 inline VectorTemplate<typename DV::vector_data_type> operator*( const VectorTemplate<DV>& v, const SparseMatrixTemplate<DM>& m )
     {
     ASSERT( v.size() == m.size().first );
-    VectorTemplate<typename DV::vector_data_type> result( m.size().first );
+    VectorTemplate<typename DV::vector_data_type> result( m.size().second );
     m.mulVectLeft( v.begin(), result.begin() );
     return result;
     }
-- 
2.43.0


From 9f8113817af44ff953fc085bcd1070420f5aa1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 24/38] fix: keep the elements of fast sparse matrix storage
 sorted when copying from a transposed view

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index b01ed46..29cb80e 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -301,6 +301,9 @@ class SparseMatrixFastData : public SparseMatrixTypes< ElementType >
             auto end = that.end();
             m_data.resize( std::distance( begin, end ) );
             std::copy( begin, end, m_data.begin() );
+            std::sort( m_data.begin(), m_data.end(), []( const data_element_type& l, const data_element_type& r ) {
+                return l.first < r.first;
+                } );
             }
 
         static bool compare( const data_element_type& l, const Index& r ) {
-- 
2.43.0


From d25e475af5ded1992d85601d6782079cd8c05db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:51 +0000
Subject: [PATCH 25/38] fix: construction of a fast sparse matrix from another
 kind of sparse matrix

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 29cb80e..edaf9dc 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -848,10 +848,8 @@ class SparseMatrixTemplate : public D
             D( data ), m_size( size ) {}
 
         template< class ThatD >
-        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) : m_size( that.size() )
-            {
-            for( auto v : that )
-                this->at( v.first ) = v.second;
+        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) {
+            doAssign( that );
             }
 
         template< class ThatD >
-- 
2.43.0


From 842029b0d6592097091a419892772d3900781257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:51 +0000
Subject: [PATCH 26/38] fix: OdeSolverErrorNormCalculator with no calculator
 set

---
 .../ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
index 295eb60..ffb5596 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
@@ -21,7 +21,8 @@ class OdeSolverErrorNormCalculator :
             OdeSolverComponent<VD>( solver )
             {
             auto updateOdeRhs = [this] {
-                this->errorNormCalculator()->setOdeRhs( this->solver().odeRhs() );
+                if( auto calculator = this->errorNormCalculator() )
+                    calculator->setOdeRhs( this->solver().odeRhs() );
                 };
             this->onErrorNormCalculatorChanged( updateOdeRhs );
             solver.onOdeRhsChanged( updateOdeRhs );
-- 
2.43.0


From c6a381c22a690cf8f01f646ebdc3695bf90f3fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:13 +0000
Subject: [PATCH 27/38] fix: fail the step when the step size is not a number
 instead of retrying forever

---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 2 +-
 include/ode_num_int/ode/OdeSolverExtrapolator.h       | 2 +-
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 1ac787a..b479480 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -128,7 +128,7 @@ class OdeSolverExplicitEmbeddedRK :
                 // Apply new step size, if it has changed
                 if( scResult.changeStepSize ) {
                     m_h = scResult.newStepSize;
-                    if( m_h <= this->stepSizeMinThreshold() )
+                    if( !( m_h > this->stepSizeMinThreshold() ) )
                         throw cxx::exception( "Step size has decreased to the minimum or below" );
                     }
 
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 415fe94..c42494b 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -187,7 +187,7 @@ class OdeSolverExtrapolator :
                 // Apply new step size, if it has changed
                 if( scResult.changeStepSize ) {
                     m_h = scResult.newStepSize;
-                    if( m_h <= this->stepSizeMinThreshold() )
+                    if( !( m_h > this->stepSizeMinThreshold() ) )
                         throw cxx::exception( "Step size has decreased to the minimum or below" );
                     }
 
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 81850f6..bacc779 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -167,7 +167,7 @@ class OdeSolverRosenbrock_SW2_4 :
                     }
                 if( scResult.changeStepSize ) {
                     m_h = scResult.newStepSize;
-                    if( m_h <= this->stepSizeMinThreshold() )
+                    if( !( m_h > this->stepSizeMinThreshold() ) )
                         throw cxx::exception( "Step size has decreased to the minimum or below" );
                     }
 
-- 
2.43.0


From f2ad1dfe8c245e8cf16d6790f6eeb016b5eb6ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 28/38] fix: views of scaled sparse matrices refer to values
 that no longer exist

A block or a transposed view of a scaled matrix stored a reference to the
element returned by the iterator of the scaled matrix, which is a temporary.
---
 include/ode_num_int/la/SparseMatrixTemplate.h | 45 ++++++++++++++-----
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index edaf9dc..0d126f8 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -28,6 +28,23 @@ void copyFrom( This& left, const That& right ) {
     for( auto v : right )
         left.at( v.first ) = v.second;
     }
+
+// Determines how an element of a proxy matrix gives access to its value, depending on what
+// the iterator of the source matrix returns when it is dereferenced: a reference to the value
+// if there is an element to refer to, or a copy of the value if the iterator returns a temporary.
+template< class SourceReference, class ActualElementType >
+struct ProxyElementAccess;
+
+template< class SourceElement, class ActualElementType >
+struct ProxyElementAccess< SourceElement&, ActualElementType > {
+    typedef std::reference_wrapper< ActualElementType > type;
+    };
+
+template< class Index, class SourceElementAccess, class ActualElementType >
+struct ProxyElementAccess< std::pair< Index, SourceElementAccess >, ActualElementType > {
+    typedef SourceElementAccess type;
+    };
+
 }
 
 class SparseMatrixCommonTypes
@@ -366,21 +383,23 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             return at( Index( r, c ) );
             }
 
-        template<class ActualElementType>
-        using iterator_value_type = std::pair< const Index, std::reference_wrapper<ActualElementType> >;
+        template< class EmbeddedIterator, class ActualElementType >
+        using iterator_value_type = std::pair<
+            const Index,
+            typename priv::ProxyElementAccess< typename EmbeddedIterator::reference, ActualElementType >::type >;
 
         template< class EmbeddedIterator, class ActualElementType >
         class iterator_template : public std::iterator<
                 std::forward_iterator_tag,
-                iterator_value_type<ActualElementType>,
+                iterator_value_type< EmbeddedIterator, ActualElementType >,
                 std::ptrdiff_t,
-                cxx::mock_ptr< iterator_value_type<ActualElementType> >,
-                iterator_value_type<ActualElementType> >
+                cxx::mock_ptr< iterator_value_type< EmbeddedIterator, ActualElementType > >,
+                iterator_value_type< EmbeddedIterator, ActualElementType > >
             {
             friend class Block<D>;
             public:
                 typedef iterator_template< EmbeddedIterator, ActualElementType > ThisClass;
-                typedef iterator_value_type<ActualElementType> value_type;
+                typedef iterator_value_type< EmbeddedIterator, ActualElementType > value_type;
                 typedef cxx::mock_ptr< value_type > pointer;
                 typedef value_type reference;
                 const EmbeddedIterator& unwrap() const {
@@ -574,21 +593,23 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             return at( Index( r, c ) );
             }
 
-        template<class ActualElementType>
-        using iterator_value_type = std::pair< const Index, std::reference_wrapper<ActualElementType> >;
+        template< class EmbeddedIterator, class ActualElementType >
+        using iterator_value_type = std::pair<
+            const Index,
+            typename priv::ProxyElementAccess< typename EmbeddedIterator::reference, ActualElementType >::type >;
 
         template< class EmbeddedIterator, class ActualElementType >
         class iterator_template : public std::iterator<
                 std::forward_iterator_tag,
-                iterator_value_type<ActualElementType>,
+                iterator_value_type< EmbeddedIterator, ActualElementType >,
                 std::ptrdiff_t,
-                cxx::mock_ptr< iterator_value_type<ActualElementType> >,
-                iterator_value_type<ActualElementType> >
+                cxx::mock_ptr< iterator_value_type< EmbeddedIterator, ActualElementType > >,
+                iterator_value_type< EmbeddedIterator, ActualElementType > >
             {
             friend class Transpose<D>;
             public:
                 typedef iterator_template< EmbeddedIterator, ActualElementType > ThisClass;
-                typedef iterator_value_type<ActualElementType> value_type;
+                typedef iterator_value_type< EmbeddedIterator, ActualElementType > value_type;
                 typedef cxx::mock_ptr< value_type > pointer;
                 typedef value_type reference;
                 const EmbeddedIterator& unwrap() const {
-- 
2.43.0


From c35752875054a21642be9bc19667c9d3e73dbb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 29/38] fix: forget a configuration value that was refused

---
 include/ode_num_int/infra/ComponentConfiguration.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/infra/ComponentConfiguration.h b/include/ode_num_int/infra/ComponentConfiguration.h
index a210da4..411b0c1 100644
--- a/include/ode_num_int/infra/ComponentConfiguration.h
+++ b/include/ode_num_int/infra/ComponentConfiguration.h
@@ -110,9 +110,10 @@ class ComponentConfiguration
             {
             valuePriv( path ) = value;
 
-            // Always reload auto setting, in particular, to load nested parameters
-            parameterProvider()->setParameters( m_parameters );
+            // Always reload auto setting, in particular, to load nested parameters,
+            // and to forget the value if the parameter provider refuses it
             m_parametersKnown = false;
+            parameterProvider()->setParameters( m_parameters );
             }
 
         template< class PathType >
-- 
2.43.0


From b7ae7a9a8d82d479a0d4b5f8d4d47560ae20b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 30/38] fix: refuse parameter paths with empty items instead of
 cutting them off

---
 include/ode_num_int/infra/OptionalParameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 4c4d3b9..0f4279a 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -383,7 +383,7 @@ class OptionalParameters
                 if( nd == std::string::npos )
                     nd = formattedPath.size();
                 if( nd == n )
-                    break;
+                    throw cxx::exception( std::string("Invalid path '") + formattedPath + "': empty item" );
                 result.push_back( formattedPath.substr( n, nd-n ) );
                 n = nd + 1;
                 }
-- 
2.43.0


From 87a455da7c3664f4c53ba79beb50da0465685f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 31/38] fix: let the parameters of the Newton solver have no
 line search and no Jacobian provider

---
 include/ode_num_int/alg/interfaces/NewtonSolverInterface.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index e3659da..d71056c 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -155,7 +155,8 @@ class NewtonSolverInterface :
                 result["ddir"] = ddir;
                 if( ddir ) {
                     result["jacobian"] = ddir->jacobianProvider();
-                    result["jtrim"] = ddir->jacobianProvider()->jacobianTrimmer();
+                    if( auto jp = ddir->jacobianProvider() )
+                        result["jtrim"] = jp->jacobianTrimmer();
                     }
                 result["linsearch"] = itperf->newtonLinearSearch();
                 result["err"] = itperf->errorEstimator();
@@ -210,7 +211,8 @@ class NewtonSolverInterface :
                             parameters, "linsearch",
                             [itperf]( const std::shared_ptr< NewtonLinearSearch<VD> >& lineSearch )
                             {
-                            lineSearch->setMapping( itperf->mapping() );
+                            if( lineSearch )
+                                lineSearch->setMapping( itperf->mapping() );
                             itperf->setNewtonLinearSearch( lineSearch );
                             } );
 
-- 
2.43.0


From 48929ae1f7af96efef7368ba987a7eef4d342044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 32/38] fix: refuse a negative size of the initial state

---
 include/ode_num_int/ode/SpecifiedOdeInitState.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/SpecifiedOdeInitState.h b/include/ode_num_int/ode/SpecifiedOdeInitState.h
index 5eeb1fa..47e1812 100644
--- a/include/ode_num_int/ode/SpecifiedOdeInitState.h
+++ b/include/ode_num_int/ode/SpecifiedOdeInitState.h
@@ -55,6 +55,8 @@ class SpecifiedOdeInitState :
         V m_initialState;
 
         void resize( int n ) {
+            if( n < 0 )
+                throw cxx::exception( std::string("Invalid initial state size ") + cxx::FormatInt(n) );
             int n0 = m_initialState.size();
             if( n != n0 ) {
                 m_initialState.resize( n );
-- 
2.43.0


From 1876f4980199c371b18d846e22d25dbd494f3078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 33/38] fix: let the Newton solver be given a mapping before
 its line search and descent direction

---
 include/ode_num_int/alg/interfaces/NewtonSolverInterface.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index d71056c..d5a254c 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -68,8 +68,10 @@ class NewtonSolverInterface :
             auto itperf = this->iterationPerformer();
             if( itperf ) {
                 itperf->setMapping( eqnRhs );
-                itperf->newtonDescentDirection()->setMapping( eqnRhs );
-                itperf->newtonLinearSearch()->setMapping( eqnRhs );
+                if( auto ddir = itperf->newtonDescentDirection() )
+                    ddir->setMapping( eqnRhs );
+                if( auto lineSearch = itperf->newtonLinearSearch() )
+                    lineSearch->setMapping( eqnRhs );
                 }
             return *this;
             }
-- 
2.43.0


From ec44a3f4dd4a70a478afa586061dac2a267a21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 34/38] fix: let the implicit Euler solver have its Newton
 solver taken away

---
 include/ode_num_int/ode/OdeSolverImplicitEuler.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 6ae6d86..d689a2b 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -32,6 +32,8 @@ class OdeSolverImplicitEuler :
             {
             auto setupNewtonSolver = [this]() {
                 auto newton = this->newtonSolver();
+                if( !newton )
+                    return;
                 // Set vector mapping for the Newton's solver
                 if( m_reorder )
                     this->newtonSolver()->setComponent( m_reorder );
@@ -171,6 +173,8 @@ class OdeSolverImplicitEuler :
             m_reorder = reorder;
             if( m_reorder )
                 m_reorder->setMapping( m_mapping4Newton );
+            if( !this->newtonSolver() )
+                return;
             if( m_reorder )
                 this->newtonSolver()->setComponent( m_reorder );
             else
-- 
2.43.0


From a5b889739ebabe18c53e06fcd514495be6461d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 35/38] fix: setting one component of the Newton solver by
 parameters keeps the others

---
 .../alg/interfaces/NewtonSolverInterface.h    | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index d5a254c..c813162 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -170,7 +170,18 @@ class NewtonSolverInterface :
             {
             OptionalParameters::maybeSetParameter(
                         parameters, "itperf",
-                        std::bind( &NewtonSolverInterface<VD>::setIterationPerformer, this, std::placeholders::_1 ) );
+                        [this]( const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf )
+                        {
+                        // Keep the other components
+                        auto old = this->iterationPerformer();
+                        if( itperf && old ) {
+                            itperf->setMapping( old->mapping() );
+                            itperf->setNewtonDescentDirection( old->newtonDescentDirection() );
+                            itperf->setNewtonLinearSearch( old->newtonLinearSearch() );
+                            itperf->setErrorEstimator( old->errorEstimator() );
+                            }
+                        this->setIterationPerformer( itperf );
+                        } );
             auto itperf = this->iterationPerformer();
             OptionalParameters::maybeSetParameter(
                         parameters, "regularizer",
@@ -190,8 +201,13 @@ class NewtonSolverInterface :
                             parameters, "ddir",
                             [this, itperf]( const std::shared_ptr< NewtonDescentDirection<VD> >& ddir )
                             {
-                            if( ddir )
+                            if( ddir ) {
                                 ddir->setMapping( itperf->mapping() );
+                                // Keep Jacobian provider
+                                auto old = itperf->newtonDescentDirection();
+                                if( old && !ddir->jacobianProvider() )
+                                    ddir->setJacobianProvider( old->jacobianProvider() );
+                                }
                             itperf->setNewtonDescentDirection( ddir );
                             auto rs = this->regularizationStrategy();
                             if( rs )
@@ -201,7 +217,14 @@ class NewtonSolverInterface :
                 if( ddir ) {
                     OptionalParameters::maybeSetParameter(
                                 parameters, "jacobian",
-                                std::bind( &NewtonDescentDirection<VD>::setJacobianProvider, ddir.get(), std::placeholders::_1 ) );
+                                [ddir]( const std::shared_ptr< JacobianProvider<VD> >& jacobianProvider )
+                                {
+                                // Keep Jacobian trimmer
+                                auto old = ddir->jacobianProvider();
+                                if( jacobianProvider && old && !jacobianProvider->jacobianTrimmer() )
+                                    jacobianProvider->setJacobianTrimmer( old->jacobianTrimmer() );
+                                ddir->setJacobianProvider( jacobianProvider );
+                                } );
                     auto jp = ddir->jacobianProvider();
                     if( jp )
                         OptionalParameters::maybeSetParameter(
-- 
2.43.0


From 06393484df8c6ce00812083552754630dbe7abcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 36/38] fix: the solution output counts its output interval
 from the initial state it writes

---
 include/ode_num_int/ode/ode_solver_output.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/ode/ode_solver_output.h b/include/ode_num_int/ode/ode_solver_output.h
index 5c366fa..114d39e 100644
--- a/include/ode_num_int/ode/ode_solver_output.h
+++ b/include/ode_num_int/ode/ode_solver_output.h
@@ -373,6 +373,7 @@ class OdeSolverStepSolutionConsoleOutput :
                 solverConfig, solverComponents, m_sizeHalfLimit, this->fileName() ) );
             auto s = solverComponents->solver().get();
             m_d->writeHeaders( s );
+            m_d->outputNow( s->initialTime() );
             m_d->write( s );
             }
 
-- 
2.43.0


From 95c183fd6fc0059a7a450833eaefdbe9108f86f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 37/38] fix: applying a configuration with an initial state but
 no right hand side throws instead of dereferencing a null pointer

---
 include/ode_num_int/ode/OdeSolverConfiguration.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverConfiguration.h b/include/ode_num_int/ode/OdeSolverConfiguration.h
index ae5d5ad..a37baa6 100644
--- a/include/ode_num_int/ode/OdeSolverConfiguration.h
+++ b/include/ode_num_int/ode/OdeSolverConfiguration.h
@@ -256,6 +256,8 @@ class OdeSolverConfiguration : public ComponentConfiguration
                     };
 
                 if( auto initState = getInitState() ) {
+                    if( !odeRhs )
+                        throw cxx::exception( "ODE right hand side is not specified" );
                     auto state = initState->initialState();
                     auto requiredStateSize = solver->odeRhs()->varCount();
                     if( state.size() != requiredStateSize )
-- 
2.43.0


From 6e22078bf5a176a47ea6e350a6ea5beb9559b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:50 +0000
Subject: [PATCH 38/38] fix: Jacobian refreshes of an iteration performer set
 later are shown to the observers of the implicit Euler solver

---
 .../ode_num_int/ode/OdeSolverImplicitEuler.h  | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index d689a2b..b438e45 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -30,7 +30,24 @@ class OdeSolverImplicitEuler :
             m_mapping4Newton( std::make_shared< OdeStepMappingEuler<VD> >() ),
             m_hardResetRequested( true )
             {
-            auto setupNewtonSolver = [this]() {
+            // Forward jacobian refresh observers of the current descent direction
+            auto setupDdir = [this]() {
+                if( auto old = m_observedDdir.lock() )
+                    old->jacobianRefreshObservers.remove( m_ddirObserverId );
+                auto newton = this->newtonSolver();
+                auto itperf = newton ?   newton->iterationPerformer() :   nullptr;
+                auto ddir = itperf ?   itperf->newtonDescentDirection() :   nullptr;
+                m_observedDdir = ddir;
+                if( ddir )
+                    m_ddirObserverId = cxx::forwardObservers( ddir->jacobianRefreshObservers, this->jacobianRefreshObservers );
+                };
+            auto setupItperf = [this, setupDdir]() {
+                auto newton = this->newtonSolver();
+                if( auto itperf = newton ?   newton->iterationPerformer() :   nullptr )
+                    itperf->onNewtonDescentDirectionChanged( setupDdir );
+                setupDdir();
+                };
+            auto setupNewtonSolver = [this, setupItperf]() {
                 auto newton = this->newtonSolver();
                 if( !newton )
                     return;
@@ -40,15 +57,8 @@ class OdeSolverImplicitEuler :
                 else
                     this->newtonSolver()->setComponent( m_mapping4Newton );
                cxx::forwardObservers( newton->iterationObservers, this->iterationObservers );
-                if( auto itperf = newton->iterationPerformer() ) {
-                    // Forward jacobian refresh observers
-                    auto setupDdir = [this, itperf] {
-                        if( auto ddir = itperf->newtonDescentDirection() )
-                            cxx::forwardObservers( ddir->jacobianRefreshObservers, this->jacobianRefreshObservers );
-                        };
-                    itperf->onNewtonDescentDirectionChanged( setupDdir );
-                    setupDdir();
-                    }
+                newton->onNewtonIterationPerformerChanged( setupItperf );
+                setupItperf();
                 };
             setupNewtonSolver();
             this->onNewtonSolverChanged( setupNewtonSolver );
@@ -224,6 +234,8 @@ class OdeSolverImplicitEuler :
         std::shared_ptr< OdeSolver<VD> > m_predictor;
         unsigned int m_predictorSteps;
         std::shared_ptr< VectorReorderingMapping<VD> > m_reorder;
+        std::weak_ptr< NewtonDescentDirection<VD> > m_observedDdir;
+        int m_ddirObserverId = 0;
 
         std::shared_ptr< OdeStepMappingEuler<VD> > m_mapping4Newton;
         V m_buf;
-- 
2.43.0

