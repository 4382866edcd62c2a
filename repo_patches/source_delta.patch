From 5db8f798027afe1651db8aedd80992e8a7934388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 01/26] fix: account for prescribed displacements when no
 Dirichlet value is zero

The flag that triggers the r_2 - k_21 d_1 correction was inverted: it was set by zero-valued
Dirichlet BCs, so a problem in which every prescribed value is non-zero was solved as if all of
them were zero.
---
 deflect/linear_bvp_solver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 89b54c6..74c541b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -3,7 +3,6 @@ package deflect
 import (
 	"fmt"
 
-	"gonum.org/v1/gonum/floats/scalar"
 	"gonum.org/v1/gonum/mat"
 )
 
@@ -47,7 +46,7 @@ func (s *linearSolver) Solve(
 	var hasNonZeroDirichlet bool
 
 	for _, bc := range p.Dirichlet {
-		hasNonZeroDirichlet = hasNonZeroDirichlet || scalar.EqualWithinAbs(bc.Value, 0, 1e-12)
+		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0
 		d.SetVec(indices.mapOne(bc.Index), bc.Value)
 	}
 
-- 
2.43.0


From ed89c4a236cb20bf31f52cf6e181bc6f815326c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 02/26] fix: reject polynomial evaluation beyond the upper end
 of the domain

The tolerance was 1e10 instead of 1e-10.
---
 deflect/polynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deflect/polynomial.go b/deflect/polynomial.go
index aa7c587..cc5cad3 100644
--- a/deflect/polynomial.go
+++ b/deflect/polynomial.go
@@ -26,7 +26,7 @@ func (p *PolyPiece) Degree() int {
 
 // Eval evaluates the polynomial at x. If x is outside of the domain, an error is returned.
 func (p *PolyPiece) Eval(x float64) (float64, error) {
-	if x+1e-10 < p.X0 || x-1e10 > p.XE {
+	if x+1e-10 < p.X0 || x-1e-10 > p.XE {
 		return 0, fmt.Errorf("%v outside of domain [%v, %v]", x, p.X0, p.XE)
 	}
 
-- 
2.43.0


From aa4d95b2f6cca303862256068f6894e8e983420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 03/26] fix: remove loads from frame elements

AddLoad stores loads in the truss/beam parts of a frame, while RemoveLoad was inherited from the
common base and searched the always empty list of loads of the frame itself.
---
 deflect/frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deflect/frame.go b/deflect/frame.go
index c69e2c4..c9cb490 100644
--- a/deflect/frame.go
+++ b/deflect/frame.go
@@ -70,6 +70,11 @@ func (f *frame) AddLoad(bc NeumannElementBC) bool {
 	return f.truss.AddLoad(bc) || f.beam.AddLoad(bc)
 }
 
+func (f *frame) RemoveLoad(bc NeumannElementBC) {
+	f.truss.RemoveLoad(bc)
+	f.beam.RemoveLoad(bc)
+}
+
 func (f *frame) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
 	s0 := f.truss.Interpolate(indices, which, d)
 	s1 := f.beam.Interpolate(indices, which, d)
-- 
2.43.0


From 8266f5fa65e0d04170659e77d652ca796fb0d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 04/26] fix: do not overwrite earlier results when a solver is
 used again

Results referred to the solver buffers, which are re-used by the next call to Solve.
---
 deflect/linear_bvp_solver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 74c541b..2106927 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -99,8 +99,8 @@ func (s *linearSolver) Solve(
 	return &solverResult{
 		total:    s.dim,
 		net:      s.dim - s.constrained,
-		d:        s.eqn.d,
-		r:        s.eqn.r,
+		d:        mat.VecDenseCopyOf(s.eqn.d), // The solver re-uses its buffers for the next problem
+		r:        mat.VecDenseCopyOf(s.eqn.r),
 		indices:  indices,
 		elements: p.Elements,
 	}, err
-- 
2.43.0


From 691d58698f024f116029ce55cd0eedcf39902f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 05/26] fix: resize inclined support buffers for a system of
 different size

Solving again after the number of degrees of freedom has changed led to an out of range panic.
---
 deflect/inclined_support.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index 9d905a2..f660ea1 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -33,8 +33,7 @@ func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDe
 	// Initialise the buffer if necessary. We might want to think about sharing the same buffer
 	// between multiple inclinedSupport instances at some point, since re-using the buffer would be
 	// more efficient.
-	if l.irow == nil {
-		dim := k.SymmetricDim()
+	if dim := k.SymmetricDim(); l.irow == nil || l.irow.Len() != dim {
 		l.irow = mat.NewVecDense(dim, nil)
 		l.jrow = mat.NewVecDense(dim, nil)
 	}
-- 
2.43.0


From d13456f1fffa32d8b7add0591f8fdf7aeaeb525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 06/26] fix: return an error instead of panicking when there is
 no Dirichlet BC

---
 deflect/linear_bvp_solver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 2106927..7729f25 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -1,6 +1,7 @@
 package deflect
 
 import (
+	"errors"
 	"fmt"
 
 	"gonum.org/v1/gonum/mat"
@@ -107,7 +108,9 @@ func (s *linearSolver) Solve(
 }
 
 func (s *linearSolver) initialise(dim, constrained int) error {
-	if dim == constrained {
+	if constrained == 0 {
+		return errors.New("can't solve a problem without any Dirichlet BC")
+	} else if dim == constrained {
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
 	}
 
-- 
2.43.0


From 502b0986286d9ea78f76619929f25cf22fa74306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 07/26] fix: trusses must not accept unknown element loads

The zero value of Dof is Ux, so any load that is not one of the known types was accepted and then
silently ignored.
---
 deflect/truss2d.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index 88bc1a9..b708a4f 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -122,19 +122,15 @@ func (t *truss2d) indicesAsArray() *[4]Index {
 }
 
 func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
-	var kind Dof
+	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { kind = load.kind },
-		func(load *neumannConstant) { kind = load.kind },
-		func(load *neumannLinear) { kind = load.kind },
+		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConstant) { supported = load.kind == Ux },
+		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
 
-	if kind == Ux {
-		return t.oneDimElement.AddLoad(bc)
-	}
-
-	return false
+	return supported && t.oneDimElement.AddLoad(bc)
 }
 
 func (t *truss2d) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
-- 
2.43.0


From 2464edf70a6a5503e1821dc14b887655c695acb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 08/26] fix: do not report loads as reactions

The residual entries of free degrees of freedom still contained the applied loads when the solver
returned. They were reported as reactions of unsupported degrees of freedom and, rotated by an
inclined support, falsified the reaction force at supported nodes that carry loads.
---
 deflect/linear_bvp_solver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 7729f25..14e832e 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -90,6 +90,8 @@ func (s *linearSolver) Solve(
 	r1.AddVec(r1, scratch)
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
+	// There are no reactions for free dofs. Drop their loads, transformations mix them with reactions.
+	r2.Zero()
 
 	for _, transform := range p.EqTransforms {
 		transform.Post(indices, r, d)
-- 
2.43.0


From 36a3c867cdd7f76736d7b804cf81a3f0dc41b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 09/26] fix: revert equation transformations in reverse order

Transformations that share an index, e.g. two inclined supports at the same node of a 3d problem, do
not commute.
---
 deflect/linear_bvp_solver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 14e832e..0d12d1d 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -93,8 +93,8 @@ func (s *linearSolver) Solve(
 	// There are no reactions for free dofs. Drop their loads, transformations mix them with reactions.
 	r2.Zero()
 
-	for _, transform := range p.EqTransforms {
-		transform.Post(indices, r, d)
+	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
+		p.EqTransforms[i].Post(indices, r, d)
 	}
 
 	err := indices.flushFailure()
-- 
2.43.0


From 154482239258e2d5306306a64d357ff1501b0c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 10/26] fix: report failed index lookups of elements and
 transformers

EqLayout is passed by value to elements and transformers, so lookup failures were recorded in copies
and lost. A layout not matching the problem, or an inclined support with a degree of freedom that no
element has, silently added coefficients to the first equation.
---
 deflect/eq_layout.go         | 26 ++++++++++++++++++++------
 deflect/linear_bvp_solver.go |  3 +++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/deflect/eq_layout.go b/deflect/eq_layout.go
index afa78c8..6d768e2 100644
--- a/deflect/eq_layout.go
+++ b/deflect/eq_layout.go
@@ -16,8 +16,13 @@ import (
 // populated with the erroneous index mapping can't be used. In the context of tangent/residual
 // assembly, the solver process should probably be aborted.
 type EqLayout struct {
-	indices  map[Index]int
-	inverse  []Index
+	indices map[Index]int
+	inverse []Index
+	// Layouts are passed by value, so that failures must be shared between copies.
+	*lookupFailures
+}
+
+type lookupFailures struct {
 	failures int
 	failed   []string
 }
@@ -59,6 +64,10 @@ func (el *EqLayout) unmap(i int) (isym Index) {
 
 func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 	if !ok {
+		if el.lookupFailures == nil {
+			el.lookupFailures = &lookupFailures{}
+		}
+
 		el.failures++
 
 		if len(el.failed) < 5 {
@@ -71,7 +80,7 @@ func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 // error state is _not_ flushed. In order to clear the error too, use [EqLayout.flushFailure]
 // instead.
 func (el *EqLayout) failure() error {
-	if el.failures == 0 {
+	if el.lookupFailures == nil || el.failures == 0 {
 		return nil
 	}
 
@@ -89,8 +98,9 @@ func (el *EqLayout) failure() error {
 func (el *EqLayout) flushFailure() error {
 	failure := el.failure()
 
-	el.failures = 0
-	el.failed = nil
+	if failure != nil {
+		*el.lookupFailures = lookupFailures{}
+	}
 
 	return failure
 }
@@ -103,7 +113,11 @@ func NewEqLayout(p *Problem) (EqLayout, error) {
 }
 
 func newEqLayoutDirect(indices map[Index]int) EqLayout {
-	return EqLayout{indices: indices, inverse: invertIndexMap(indices)}
+	return EqLayout{
+		indices:        indices,
+		inverse:        invertIndexMap(indices),
+		lookupFailures: &lookupFailures{},
+	}
 }
 
 // IndexMap constructs the mapping from symbolic to plain matrix indices. It returns an
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 0d12d1d..797e9d5 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -31,6 +31,9 @@ func (s *linearSolver) Solve(
 	indices EqLayout,
 	strategy EquationSolver,
 ) (ProblemResult, error) {
+	// Don't mix up lookup failures with those of other users of the same layout
+	indices.lookupFailures = &lookupFailures{}
+
 	if err := s.initialise(indices.eqSize(), len(p.Dirichlet)); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4d62c51af9fbdcca3af440f415a93336e06e1022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 11/26] fix: refuse concentrated loads beyond the end of an
 element

Such a load was accepted and extrapolated to meaningless nodal forces and interpolations.
---
 deflect/beam2d.go          | 4 +++-
 deflect/one_dim_element.go | 5 +++++
 deflect/truss2d.go         | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/deflect/beam2d.go b/deflect/beam2d.go
index 4a41b60..f5dbfcc 100644
--- a/deflect/beam2d.go
+++ b/deflect/beam2d.go
@@ -180,7 +180,9 @@ func (b *beam2d) AddLoad(bc NeumannElementBC) bool {
 	supported := false
 
 	loadDispatch(bc,
-		func(l *neumannConcentrated) { supported = l.kind == Uz || l.kind == Phiy },
+		func(l *neumannConcentrated) {
+			supported = (l.kind == Uz || l.kind == Phiy) && b.contains(l.position)
+		},
 		func(l *neumannConstant) { supported = l.kind == Uz },
 		func(l *neumannLinear) { supported = l.kind == Uz })
 
diff --git a/deflect/one_dim_element.go b/deflect/one_dim_element.go
index b72988f..a1547c3 100644
--- a/deflect/one_dim_element.go
+++ b/deflect/one_dim_element.go
@@ -45,6 +45,11 @@ func (e *oneDimElement) RemoveLoad(bc NeumannElementBC) {
 	}
 }
 
+// contains returns true if the local coordinate x is located on the element.
+func (e *oneDimElement) contains(x float64) bool {
+	return x >= 0 && x <= length(e.n0, e.n1)+1e-10
+}
+
 func (e *oneDimElement) NumNodes() uint {
 	return 2
 }
diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index b708a4f..b468d54 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -125,7 +125,7 @@ func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
 	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConcentrated) { supported = load.kind == Ux && t.contains(load.position) },
 		func(load *neumannConstant) { supported = load.kind == Ux },
 		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
-- 
2.43.0


From ce77a31a5689a2ceca1f95b8cbae7589f238cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 12/26] fix: reject inclined supports that link a degree of
 freedom to itself

---
 deflect/problem_from_json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 7a91aa7..82a5ec2 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -560,6 +560,9 @@ func translateAngularLinks(
 
 			if !(okFrom && okTo) {
 				continue
+			} else if dofFrom == dofTo {
+				err = errors.Join(err, fmt.Errorf("inclined support links %v to itself", desc.From))
+				continue
 			}
 
 			fromIndex := Index{NodalID: nodeID, Dof: dofFrom}
@@ -570,7 +573,7 @@ func translateAngularLinks(
 		}
 	}
 
-	return links, bcs, dofs.FinaliseJoin(nil)
+	return links, bcs, dofs.FinaliseJoin(err)
 }
 
 type dofLookup struct {
-- 
2.43.0


From 6e8fbeac5849740d4b67952ed09f873ede70db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 13/26] fix: reject layouts with different constraints than the
 problem

The equations are partitioned by the number of Dirichlet BCs, which leads to wrong results when the
layout was created with other Dirichlet BCs.
---
 deflect/linear_bvp_solver.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 797e9d5..59bbf52 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -51,7 +51,13 @@ func (s *linearSolver) Solve(
 
 	for _, bc := range p.Dirichlet {
 		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0
-		d.SetVec(indices.mapOne(bc.Index), bc.Value)
+		i := indices.mapOne(bc.Index)
+
+		if i >= s.constrained {
+			return nil, fmt.Errorf("%v/%v is not constrained in the given layout", bc.NodalID, bc.Dof)
+		}
+
+		d.SetVec(i, bc.Value)
 	}
 
 	for _, bc := range p.Neumann {
-- 
2.43.0


From 775df6c3396c68d8a610deb4d6a773c52f1810e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 14/26] fix: reject kinematic systems that are singular up to
 rounding

The default tolerance of 1e16 is about the condition number of a singular matrix with rounding
errors, so that mechanisms were solved with meaningless displacements every now and then.
---
 deflect/cholesky.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/deflect/cholesky.go b/deflect/cholesky.go
index 1cef408..d7dda98 100644
--- a/deflect/cholesky.go
+++ b/deflect/cholesky.go
@@ -8,6 +8,11 @@ import (
 
 type cholesky struct{}
 
+// maxCondition is the condition number beyond which a coefficient matrix is considered singular. Due
+// to rounding, the factorisation of a singular matrix (a kinematic system) often succeeds, with an
+// estimated condition number of roughly 1e15 and above.
+const maxCondition = 1e14
+
 func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (result error) {
 	// Gonum panics when the input matrix is singular. Since we'd like to try and handle such a case
 	// more gracefully, we turn this into an error instead.
@@ -24,6 +29,10 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 		return fmt.Errorf("failed to compute Cholesky factorisation, deteterminant = %v", det)
 	}
 
+	if cond := ch.Cond(); cond > maxCondition {
+		return fmt.Errorf("coefficient matrix is numerically singular, condition number = %v", cond)
+	}
+
 	if err := ch.SolveVecTo(x, b); err != nil {
 		det := ch.Det()
 		return fmt.Errorf("failed to solve Cholesky-factorised system, det = %v", det)
-- 
2.43.0


From 447c16cea5783f7c47baccf2fcb46b5e3acfec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 15/26] fix: refuse a negative roll angle of constants cross
 sections

The documentation of NewConstantsCrossSections promises an error when an optional parameter
is negative, but only Ixx was inspected.
---
 deflect/cross_sections.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/cross_sections.go b/deflect/cross_sections.go
index 9fcb4ae..7202b8c 100644
--- a/deflect/cross_sections.go
+++ b/deflect/cross_sections.go
@@ -46,6 +46,10 @@ func NewConstantsCrossSections(param map[string]float64) (CrossSection, error) {
 		err = errors.Join(err, fmt.Errorf("negative cross section constant Ixx = %v", cs.ixx))
 	}
 
+	if cs.roll < 0 {
+		err = errors.Join(err, fmt.Errorf("negative cross section constant roll = %v", cs.roll))
+	}
+
 	return &cs, err
 }
 
-- 
2.43.0


From 11dacf534c9c182aa024dc953b011af05c87e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 16/26] fix: reject unknown kinds of materials

A material of any other (or no) kind was silently treated as linear-elastic.
---
 deflect/problem_from_json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 82a5ec2..7804d9a 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -312,6 +312,10 @@ func translateMaterials(from map[string]matDescription) (map[string]LinearElasti
 	}
 
 	for id, desc := range from {
+		if desc.Kind != "linelast" {
+			return materials, fmt.Errorf("unsupported material '%v'", desc.Kind)
+		}
+
 		E, found0 := desc.Parameter["E"]
 		nu, found1 := desc.Parameter["nu"]
 		rho, found2 := desc.Parameter["rho"]
-- 
2.43.0


From 9f4f16d1d272b6a9d45c2449be958343c082adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 17/26] fix: reject positions of distributed element loads

Distributed loads always span the entire element. A position given for them was silently
dropped, so that a load described for a part of the element acted on all of it.
---
 deflect/problem_from_json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 7804d9a..f913b10 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -515,12 +515,16 @@ func translateElementNeumannBC(desc *neumannDescription) (NeumannElementBC, erro
 	case "constant":
 		if numValues != 1 {
 			err = fmt.Errorf("constant load must have 1 value, got %v", numValues)
+		} else if numPos != 0 {
+			err = fmt.Errorf("constant load must not have positions, got %v", pos)
 		} else {
 			load = NewElementConstantLoad(kind, values[0])
 		}
 	case "linear":
 		if numValues != 2 {
 			err = fmt.Errorf("linear load must have 2 values, got %v", numValues)
+		} else if numPos != 0 {
+			err = fmt.Errorf("linear load must not have positions, got %v", pos)
 		} else {
 			load = NewElementLinearLoad(kind, values[0], values[1])
 		}
-- 
2.43.0


From c435a1e325436a10bae406194a68c890b2388415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 18/26] fix: reject nodes without exactly three coordinates

Missing coordinates were silently replaced by zero, additional ones were silently dropped.
---
 deflect/problem_from_json.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index f913b10..bc42151 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -72,7 +72,7 @@ type elmtDescription struct {
 // ProblemFromJSON parses the given JSON data and constructs a boundary value problem from it.
 func ProblemFromJSON(data []byte) (Problem, error) {
 	var tmp struct {
-		Nodes        map[string][3]float64
+		Nodes        map[string][]float64
 		Material     map[string]matDescription
 		Crosssection map[string]csDescription
 		Elements     map[string]elmtDescription
@@ -124,9 +124,13 @@ func ProblemFromJSON(data []byte) (Problem, error) {
 	return result, nil
 }
 
-func translateNodes(from map[string][3]float64) ([]Node, error) {
+func translateNodes(from map[string][]float64) ([]Node, error) {
 	nodes := make([]Node, 0, len(from))
 	for id, coor := range from {
+		if len(coor) != 3 {
+			return nodes, fmt.Errorf("node '%v' must have 3 coordinates, got %v", id, len(coor))
+		}
+
 		nodes = append(nodes, Node{ID: id, X: coor[0], Y: coor[1], Z: coor[2]})
 	}
 
-- 
2.43.0


From 8a12abaa28f2e1534ee44b4b6b46a814beca6f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 19/26] fix: refuse to solve with duplicate Dirichlet boundary
 conditions

A layout created before the duplicate was added doesn't notice it, so that the partitioning into
constrained and free equations was off by one and a free degree of freedom was silently fixed.
---
 deflect/linear_bvp_solver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 59bbf52..dfedaac 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -48,6 +48,7 @@ func (s *linearSolver) Solve(
 	}
 
 	var hasNonZeroDirichlet bool
+	prescribed := make(map[Index]struct{}, len(p.Dirichlet))
 
 	for _, bc := range p.Dirichlet {
 		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0
@@ -55,8 +56,11 @@ func (s *linearSolver) Solve(
 
 		if i >= s.constrained {
 			return nil, fmt.Errorf("%v/%v is not constrained in the given layout", bc.NodalID, bc.Dof)
+		} else if _, ok := prescribed[bc.Index]; ok {
+			return nil, fmt.Errorf("%v/%v has more than one Dirichlet BC", bc.NodalID, bc.Dof)
 		}
 
+		prescribed[bc.Index] = struct{}{}
 		d.SetVec(i, bc.Value)
 	}
 
-- 
2.43.0


From e8dc191a84b14e587be968dad44569539f5f659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 20/26] fix: do not share buffers of inclined supports between
 solves

Solving a problem with inclined supports in several goroutines was a data race on the buffers, which
corrupted the results.
---
 deflect/inclined_support.go | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index f660ea1..d819484 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -12,14 +12,13 @@ import (
 // index determines how the Transformer acts on the assembled tangent and vectors, and hence
 // returned by the same constructor(-like) function.
 func NewInclinedSupport(from, to Index, angle float64) (Transformer, NodalValue) {
-	return &inclinedSupport{from: from, to: to, c: math.Cos(angle), s: math.Sin(angle), irow: nil},
+	return &inclinedSupport{from: from, to: to, c: math.Cos(angle), s: math.Sin(angle)},
 		NodalValue{Index: to, Value: 0}
 }
 
 type inclinedSupport struct {
-	from, to   Index
-	c, s       float64
-	irow, jrow *mat.VecDense
+	from, to Index
+	c, s     float64
 }
 
 type angularLinkPhase uint8
@@ -30,14 +29,6 @@ const (
 )
 
 func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
-	// Initialise the buffer if necessary. We might want to think about sharing the same buffer
-	// between multiple inclinedSupport instances at some point, since re-using the buffer would be
-	// more efficient.
-	if dim := k.SymmetricDim(); l.irow == nil || l.irow.Len() != dim {
-		l.irow = mat.NewVecDense(dim, nil)
-		l.jrow = mat.NewVecDense(dim, nil)
-	}
-
 	i, j := indices.mapTwo(l.from, l.to)
 
 	l.transformTangent(i, j, k)
@@ -46,8 +37,6 @@ func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDe
 }
 
 func (l *inclinedSupport) Post(indices EqLayout, r, d *mat.VecDense) {
-	// No need to check for the initialisation of l's buffers, since l.Pre must have been called
-	// before l.Post, and l.Pre would initialise them.
 	i, j := indices.mapTwo(l.from, l.to)
 
 	l.transformVec(i, j, angularLinkPhasePost, r)
@@ -84,6 +73,8 @@ func (l *inclinedSupport) transformTangent(i, j int, k *mat.SymDense) {
 	// should demonstrate the computation benefit over this hand-rolled scheme).
 	dim := k.SymmetricDim()
 	s, c := l.s, l.c
+	// These buffers must not be shared, multiple solvers may use this object at the same time.
+	irow, jrow := mat.NewVecDense(dim, nil), mat.NewVecDense(dim, nil)
 
 	kii := k.At(i, i)
 	kij := k.At(i, j)
@@ -95,14 +86,14 @@ func (l *inclinedSupport) transformTangent(i, j int, k *mat.SymDense) {
 		}
 		// Populate scratch buffers for the matrix-matrix multiplication that we carry out only for the
 		// two relevant rows.
-		l.irow.SetVec(m, c*k.At(m, i)+s*k.At(m, j))
-		l.jrow.SetVec(m, -s*k.At(m, i)+c*k.At(m, j))
+		irow.SetVec(m, c*k.At(m, i)+s*k.At(m, j))
+		jrow.SetVec(m, -s*k.At(m, i)+c*k.At(m, j))
 	}
 
 	// Spill scratch buffers into the destination matrix
 	for m := range dim {
-		k.SetSym(i, m, l.irow.AtVec(m))
-		k.SetSym(j, m, l.jrow.AtVec(m))
+		k.SetSym(i, m, irow.AtVec(m))
+		k.SetSym(j, m, jrow.AtVec(m))
 	}
 
 	// Finally, the diagonal terms
-- 
2.43.0


From 66f22e83218341c8cf97f3e9d240e81e5d644bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 21/26] fix: do not panic on empty ranges of expected
 interpolations

An empty range is documented to span the entire element, like an absent one.
---
 integr/expectations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/integr/expectations.go b/integr/expectations.go
index f1a0386..9925f50 100644
--- a/integr/expectations.go
+++ b/integr/expectations.go
@@ -163,9 +163,9 @@ func (e *interpolationExpectation) findPolySegment(
 
 	// If no range has been given, the polynomial characteristics are expected to hold for the
 	// entire element. There must not be any sub-domains, and hence only a single coefficient set.
-	if expect.fctRange == nil && len(ps) == 1 {
+	if len(expect.fctRange) == 0 && len(ps) == 1 {
 		return ps[0], nil
-	} else if expect.fctRange == nil && len(ps) != 1 {
+	} else if len(expect.fctRange) == 0 && len(ps) != 1 {
 		return deflect.PolyPiece{}, fmt.Errorf("%v polynomials on element %v", len(ps), elmtID)
 	}
 
-- 
2.43.0


From baf98e870a5aa0ebd5b708aefbe8dbc122e61a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 22/26] fix: reject layouts with less degrees of freedom than
 Dirichlet BCs

---
 deflect/linear_bvp_solver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index dfedaac..958f5d2 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -127,6 +127,8 @@ func (s *linearSolver) initialise(dim, constrained int) error {
 		return errors.New("can't solve a problem without any Dirichlet BC")
 	} else if dim == constrained {
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
+	} else if dim < constrained {
+		return fmt.Errorf("%v Dirichlet BCs, but only %v degrees of freedom in the given layout", constrained, dim)
 	}
 
 	s.dim = dim
-- 
2.43.0


From d9ac1b530db909b73bc8ce189debfc110f699686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 23/26] fix: do not take rounding errors of condensed elements
 for stiffness

Two hinges leave a beam without bending stiffness. The residue of the static condensation let
kinematic systems pass as stable when it was the only stiffness of a degree of freedom.
---
 deflect/static_condensation.go | 36 +++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/deflect/static_condensation.go b/deflect/static_condensation.go
index 5b42ff3..76fdfee 100644
--- a/deflect/static_condensation.go
+++ b/deflect/static_condensation.go
@@ -2,10 +2,15 @@ package deflect
 
 import (
 	"fmt"
+	"math"
 
 	"gonum.org/v1/gonum/mat"
 )
 
+// roundingResidue is the ratio between a result and the terms it was computed from below which the
+// result consists of rounding errors only.
+const roundingResidue = 1e-13
+
 // condenser instances apply static condensation on the element level, e.g., for hinged connections
 // of truss or frame elements.
 type condenser interface {
@@ -380,6 +385,31 @@ func (*preComputedHinge4x0x3) enhance(k *mat.SymDense, r, d *mat.VecDense) {
 	d.SetVec(3, (-k00*(d1*k13+d2*k23-r3)+k03*(d1*k01+d2*k02-r0))*1.0/(k00*k33-(k03*k03)))
 }
 
+// residueFreeCondenser wraps another condenser such that stiffness that vanishes by static
+// condensation doesn't survive as a rounding error. Otherwise, kinematic systems would appear stable.
+type residueFreeCondenser struct {
+	condenser
+}
+
+func (c *residueFreeCondenser) reduce(k *mat.SymDense, r *mat.VecDense) {
+	dim := k.SymmetricDim()
+	diag := make([]float64, dim)
+
+	for i := range dim {
+		diag[i] = k.At(i, i)
+	}
+
+	c.condenser.reduce(k, r)
+
+	for i := range dim {
+		for j := i; j < dim; j++ {
+			if math.Abs(k.At(i, j)) <= roundingResidue*math.Sqrt(diag[i]*diag[j]) {
+				k.SetSym(i, j, 0)
+			}
+		}
+	}
+}
+
 func newStaticHingeCondenser(all []Index, hinged map[Index]struct{}) (c condenser, err error) {
 	indices := make([]int, 0, 2)
 
@@ -424,5 +454,9 @@ func newStaticHingeCondenser(all []Index, hinged map[Index]struct{}) (c condense
 		err = fmt.Errorf("unsupported hinge setup, indices %v with hinges %v", all, indices)
 	}
 
-	return c, err
+	if err != nil {
+		return nil, err
+	}
+
+	return &residueFreeCondenser{condenser: c}, nil
 }
-- 
2.43.0


From 95b1dcbc79fc1e0550c8d25e1f97f62f9bc1187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 24/26] fix: do not take rounding errors of inclined supports
 for stiffness

A bar perpendicular to the direction an inclined support leaves free doesn't resist movements in
that direction. The residue of the transformation let such kinematic systems pass as stable.
---
 deflect/inclined_support.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index d819484..16f1a72 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -76,6 +76,16 @@ func (l *inclinedSupport) transformTangent(i, j int, k *mat.SymDense) {
 	// These buffers must not be shared, multiple solvers may use this object at the same time.
 	irow, jrow := mat.NewVecDense(dim, nil), mat.NewVecDense(dim, nil)
 
+	// Stiffness that vanishes by the transformation must not survive as a rounding error. Otherwise,
+	// kinematic systems would appear stable.
+	clean := func(value, before0, before1 float64) float64 {
+		if math.Abs(value) <= roundingResidue*math.Max(math.Abs(before0), math.Abs(before1)) {
+			return 0
+		}
+
+		return value
+	}
+
 	kii := k.At(i, i)
 	kij := k.At(i, j)
 	kjj := k.At(j, j)
@@ -86,8 +96,9 @@ func (l *inclinedSupport) transformTangent(i, j int, k *mat.SymDense) {
 		}
 		// Populate scratch buffers for the matrix-matrix multiplication that we carry out only for the
 		// two relevant rows.
-		irow.SetVec(m, c*k.At(m, i)+s*k.At(m, j))
-		jrow.SetVec(m, -s*k.At(m, i)+c*k.At(m, j))
+		kmi, kmj := k.At(m, i), k.At(m, j)
+		irow.SetVec(m, clean(c*kmi+s*kmj, kmi, kmj))
+		jrow.SetVec(m, clean(-s*kmi+c*kmj, kmi, kmj))
 	}
 
 	// Spill scratch buffers into the destination matrix
@@ -97,7 +108,7 @@ func (l *inclinedSupport) transformTangent(i, j int, k *mat.SymDense) {
 	}
 
 	// Finally, the diagonal terms
-	k.SetSym(i, i, c*(c*kii+s*kij)+s*(c*kij+s*kjj))
-	k.SetSym(i, j, c*(c*kij+s*kjj)-s*(c*kii+s*kij))
-	k.SetSym(j, j, c*(c*kjj-s*kij)-s*(c*kij-s*kii))
+	k.SetSym(i, i, clean(c*(c*kii+s*kij)+s*(c*kij+s*kjj), kii, kjj))
+	k.SetSym(i, j, clean(c*(c*kij+s*kjj)-s*(c*kii+s*kij), kii, kjj))
+	k.SetSym(j, j, clean(c*(c*kjj-s*kij)-s*(c*kij-s*kii), kii, kjj))
 }
-- 
2.43.0


From 2f45cb39494375d7c311385e5cde743462bde9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:47 +0000
Subject: [PATCH 25/26] fix: do not take different magnitudes of stiffness for
 singularity

---
 deflect/cholesky.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/deflect/cholesky.go b/deflect/cholesky.go
index d7dda98..3c3656d 100644
--- a/deflect/cholesky.go
+++ b/deflect/cholesky.go
@@ -2,6 +2,7 @@ package deflect
 
 import (
 	"fmt"
+	"math"
 
 	"gonum.org/v1/gonum/mat"
 )
@@ -29,7 +30,7 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 		return fmt.Errorf("failed to compute Cholesky factorisation, deteterminant = %v", det)
 	}
 
-	if cond := ch.Cond(); cond > maxCondition {
+	if cond := scaledCondition(a); cond > maxCondition {
 		return fmt.Errorf("coefficient matrix is numerically singular, condition number = %v", cond)
 	}
 
@@ -41,6 +42,27 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 	return nil
 }
 
+// scaledCondition estimates the condition number of a after scaling it to a unit diagonal. Forces and
+// moments, stiff and soft elements have different magnitudes, which says nothing about singularity.
+func scaledCondition(a mat.Symmetric) float64 {
+	dim := a.SymmetricDim()
+	scaled := mat.NewSymDense(dim, nil)
+
+	for i := range dim {
+		for j := i; j < dim; j++ {
+			scaled.SetSym(i, j, a.At(i, j)/math.Sqrt(a.At(i, i))/math.Sqrt(a.At(j, j)))
+		}
+	}
+
+	var ch mat.Cholesky
+
+	if ok := ch.Factorize(scaled); !ok {
+		return math.Inf(1)
+	}
+
+	return ch.Cond()
+}
+
 // NewCholeskySolver creates a Cholesky solver for symmetric positive definite coefficient matrices.
 func NewCholeskySolver() EquationSolver {
 	return &cholesky{}
-- 
2.43.0


From 6ca30767d3bad8ba141e6f2f2de8204a58b14010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:26 +0000
Subject: [PATCH 26/26] fix: judge singularity by the stiffness before inclined
 supports turn it

---
 deflect/cholesky.go          | 24 +----------------------
 deflect/linear_bvp_solver.go | 38 ++++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/deflect/cholesky.go b/deflect/cholesky.go
index 3c3656d..d7dda98 100644
--- a/deflect/cholesky.go
+++ b/deflect/cholesky.go
@@ -2,7 +2,6 @@ package deflect
 
 import (
 	"fmt"
-	"math"
 
 	"gonum.org/v1/gonum/mat"
 )
@@ -30,7 +29,7 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 		return fmt.Errorf("failed to compute Cholesky factorisation, deteterminant = %v", det)
 	}
 
-	if cond := scaledCondition(a); cond > maxCondition {
+	if cond := ch.Cond(); cond > maxCondition {
 		return fmt.Errorf("coefficient matrix is numerically singular, condition number = %v", cond)
 	}
 
@@ -42,27 +41,6 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 	return nil
 }
 
-// scaledCondition estimates the condition number of a after scaling it to a unit diagonal. Forces and
-// moments, stiff and soft elements have different magnitudes, which says nothing about singularity.
-func scaledCondition(a mat.Symmetric) float64 {
-	dim := a.SymmetricDim()
-	scaled := mat.NewSymDense(dim, nil)
-
-	for i := range dim {
-		for j := i; j < dim; j++ {
-			scaled.SetSym(i, j, a.At(i, j)/math.Sqrt(a.At(i, i))/math.Sqrt(a.At(j, j)))
-		}
-	}
-
-	var ch mat.Cholesky
-
-	if ok := ch.Factorize(scaled); !ok {
-		return math.Inf(1)
-	}
-
-	return ch.Cond()
-}
-
 // NewCholeskySolver creates a Cholesky solver for symmetric positive definite coefficient matrices.
 func NewCholeskySolver() EquationSolver {
 	return &cholesky{}
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 958f5d2..202e438 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -3,6 +3,7 @@ package deflect
 import (
 	"errors"
 	"fmt"
+	"math"
 
 	"gonum.org/v1/gonum/mat"
 )
@@ -70,6 +71,8 @@ func (s *linearSolver) Solve(
 		r.SetVec(i, ri+bc.Value)
 	}
 
+	magnitude := s.magnitude()
+
 	for _, transform := range p.EqTransforms {
 		transform.Pre(indices, k, r, d)
 	}
@@ -90,11 +93,15 @@ func (s *linearSolver) Solve(
 		r2.SubVec(r2, scratch)
 	}
 
+	s.scaleFree(magnitude)
+
 	errSolve := strategy.SolveLinearSystem(k22, r2, d2)
 	if errSolve != nil {
 		return nil, fmt.Errorf("failed to solve assembled linear system: %w", errSolve)
 	}
 
+	d2.MulElemVec(d2, magnitude)
+
 	// Computes reaction forces [r_1] = (-1)·[k_11 d_1 + k_12 d_2] for Dirichlet-constrained dofs:
 	scratch.Reset()
 	scratch.ReuseAsVec(s.constrained)
@@ -181,6 +188,37 @@ func formMatrices(dim, constrained int, prior *matrices) matrices {
 	return *eqn
 }
 
+// magnitude returns the factors to scale the free part of the system with (see scaleFree).
+func (s *linearSolver) magnitude() *mat.VecDense {
+	factors := mat.NewVecDense(s.dim-s.constrained, nil)
+
+	for i := range factors.Len() {
+		factors.SetVec(i, 1)
+
+		if kii := s.eqn.k.At(s.constrained+i, s.constrained+i); kii != 0 {
+			factors.SetVec(i, 1/math.Sqrt(math.Abs(kii)))
+		}
+	}
+
+	return factors
+}
+
+// scaleFree scales the system to be solved to comparable magnitudes of stiffness, such that its
+// condition number tells how close to singular it is. Without it, forces and moments, or stiff and
+// soft elements lead to large condition numbers. The factors stem from the tangent prior to any
+// transformation, as rounding errors have the magnitude of what the transformations operate on.
+func (s *linearSolver) scaleFree(factors *mat.VecDense) {
+	k, r2, c := s.eqn.k, s.eqn.r2, s.constrained
+
+	for i := c; i < s.dim; i++ {
+		for j := i; j < s.dim; j++ {
+			k.SetSym(i, j, k.At(i, j)*factors.AtVec(i-c)*factors.AtVec(j-c))
+		}
+	}
+
+	r2.MulElemVec(r2, factors)
+}
+
 func (s *linearSolver) extractK12() {
 	for i := 0; i < s.constrained; i++ {
 		for j := s.constrained; j < s.dim; j++ {
-- 
2.43.0

