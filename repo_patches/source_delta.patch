From 6f5957ec16e7779fab1a071cb053228257d9c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 01/92] fix: adjoints of CSX, U2, U3, CU3, CU and FSim are
 their inverses

---
 pyzx/circuit/gates.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index d4972e6..5ddf381 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -454,15 +454,22 @@ class SX(XPhase):
 class CSX(Gate):
     name = 'CSX'
     qasm_name = 'csx'
-    def __init__(self, control: int, target: int) -> None:
+    def __init__(self, control: int, target: int, adjoint: bool=False) -> None:
         self.target = target
         self.control = control
+        self.adjoint = adjoint
 
     def to_basic_gates(self):
         return [HAD(self.target)] + \
-               CPhase(self.control,self.target,Fraction(1,2)).to_basic_gates() + \
+               CPhase(self.control,self.target,Fraction(-1 if self.adjoint else 1,2)).to_basic_gates() + \
                [HAD(self.target)]
 
+    def to_qasm(self):
+        if not self.adjoint: return super().to_qasm()
+        # QASM has no name for the inverse of csx
+        gates = [HAD(self.target), CPhase(self.control,self.target,Fraction(-1,2)), HAD(self.target)]
+        return "\n".join(g.to_qasm() for g in gates)
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
@@ -824,8 +831,8 @@ class FSim(Gate):
     qsim_name = 'fs'
     print_phase = True
     def __init__(self, control:int, target:int, theta:FractionLike, phi:FractionLike):
-        # TODO: this version assumes theta is always (pi/2)
-        assert theta == Fraction(1, 2)
+        # TODO: this version assumes theta is always (pi/2), or (-pi/2) for its adjoint
+        assert theta in (Fraction(1, 2), Fraction(-1, 2))
         self.control = control
         self.target = target
         self.theta = theta
@@ -848,6 +855,9 @@ class FSim(Gate):
         g.targets = [mask[t] for t in g.targets]
         return g
 
+    def to_adjoint(self):
+        return FSim(self.control, self.target, -self.theta, -self.phi)
+
     def to_basic_gates(self):
         # TODO
         #cnots = [CNOT(self.targets[i],self.targets[i+1]) for i in range(len(self.targets)-1)]
@@ -855,7 +865,7 @@ class FSim(Gate):
         return [self]
 
     def to_graph(self, g, q_mapper, _c_mapper):
-        # TODO: this version assumes theta is always (pi/2)
+        # TODO: this version assumes theta is always (pi/2) or (-pi/2)
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         qmin = min(self.target,self.control)
         c0 = self.graph_add_node(g, q_mapper, VertexType.Z, self.control,r)
@@ -870,8 +880,10 @@ class FSim(Gate):
         pg0 = g.add_vertex(VertexType.Z, qmin+0.5,r+2)
         pg1 = g.add_vertex(VertexType.Z, qmin+0.5,r+3)
 
-        g.set_phase(c, Fraction(-1,2) * self.phi)
-        g.set_phase(t, Fraction(-1,2) * self.phi)
+        # theta = -pi/2 differs from theta = pi/2 by a Z on both qubits
+        offset = 0 if self.theta == Fraction(1,2) else 1
+        g.set_phase(c, Fraction(-1,2) * self.phi + offset)
+        g.set_phase(t, Fraction(-1,2) * self.phi + offset)
         g.set_phase(pg1, (Fraction(1,2) * self.phi) - Fraction(1,2))
 
         g.add_edge((c, pg0), EdgeType.HADAMARD)
@@ -1056,6 +1068,9 @@ class U2(Gate):  # See https://arxiv.org/pdf/1707.03429.pdf
         self.phi = phi
         self.phases = [theta, phi]
 
+    def to_adjoint(self):
+        return U2(self.target, 1-self.phi, -1-self.theta)
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=(self.phi-Fraction(1,2))%2),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1076,6 +1091,9 @@ class U3(Gate):  # See equation (5) of https://arxiv.org/pdf/1707.03429.pdf
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        return U3(self.target, -self.theta, -self.rho, -self.phi)
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=self.rho),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1100,6 +1118,9 @@ class CU3(Gate):
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        return CU3(self.control, self.target, -self.theta, -self.rho, -self.phi)
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=(self.rho+self.phi)/2),
                 ZPhase(self.target, phase=(self.rho-self.phi)/2),
@@ -1128,6 +1149,9 @@ class CU(Gate):
         self.gamma = gamma
         self.phases = [theta, phi, rho, gamma]
 
+    def to_adjoint(self):
+        return CU(self.control, self.target, -self.theta, -self.rho, -self.phi, -self.gamma)
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=self.gamma)] + \
                CU3(self.control,self.target,self.theta,self.phi,self.rho).to_basic_gates()
-- 
2.43.0


From 6062f3ce0b475ca56114375d561b580fb4bb092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 02/92] fix: repositioning RZZ and FSim gates moves all their
 qubits

---
 pyzx/circuit/gates.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 5ddf381..7e93e76 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -825,6 +825,11 @@ class RZZ(ParityPhase):
         self.targets = (control, target)
         self.phase = phase
 
+    def reposition(self, mask, bit_mask = None):
+        g = super().reposition(mask, bit_mask)
+        g.control, g.target = g.targets
+        return g
+
 
 class FSim(Gate):
     name = 'FSim'
@@ -850,11 +855,6 @@ class FSim(Gate):
     def __str__(self) -> str:
         return "FSim({!s}, {!s}, {!s}, {!s})".format(self.control, self.target, self.theta, self.phi)
 
-    def reposition(self, mask, bit_mask = None):
-        g = self.copy()
-        g.targets = [mask[t] for t in g.targets]
-        return g
-
     def to_adjoint(self):
         return FSim(self.control, self.target, -self.theta, -self.phi)
 
-- 
2.43.0


From dc5848397bc8a7c69afbdfb2a82ea0835a1ccef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 03/92] fix: bialgebra rule only matches simple edges and
 tracks its scalar

---
 pyzx/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 708a624..044d9c6 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -83,7 +83,6 @@ def match_bialg(g: BaseGraph[VT,ET]) -> List[MatchBialgType[VT]]:
     return match_bialg_parallel(g, num=1)
 
 
-#TODO: make it be hadamard edge aware
 def match_bialg_parallel(
         g: BaseGraph[VT,ET],
         matchf:Optional[Callable[[ET],bool]]=None,
@@ -110,6 +109,8 @@ def match_bialg_parallel(
         v0, v1 = g.edge_st(candidates.pop())
         if g.is_ground(v0) or g.is_ground(v1):
             continue
+        if any(g.edge_type(e) != EdgeType.SIMPLE for v in (v0, v1) for e in g.incident_edges(v)):
+            continue
         v0t = types[v0]
         v1t = types[v1]
         v0p = phases[v0]
@@ -138,6 +139,7 @@ def bialg(g: BaseGraph[VT,ET], matches: List[MatchBialgType[VT]]) -> RewriteOutp
     for m in matches:
         rem_verts.append(m[0])
         rem_verts.append(m[1])
+        g.scalar.add_power((len(m[2])-1)*(len(m[3])-1))
         es = [(i,j) for i in m[2] for j in m[3]]
         for e in es:
             if e in etab: etab[e][0] += 1
-- 
2.43.0


From 69817cf01b884bfea889dc5c11f5d40765fe9ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 04/92] fix: copy rule does not report overlapping matches nor
 put phases on boundaries

---
 pyzx/rules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 044d9c6..80cea53 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -977,13 +977,15 @@ def match_copy(
     phases = g.phases()
     types = g.types()
     m: List[MatchCopyType[VT]] = []
+    taken: Set[VT] = set()
 
     while len(candidates) > 0:
         v = candidates.pop()
         if phases[v] not in (0,1) or types[v] != VertexType.Z or g.vertex_degree(v) != 1: continue
         w = list(g.neighbors(v))[0]
-        if types[w] != VertexType.Z: continue
+        if types[w] != VertexType.Z or w in taken: continue # w gets its phase changed by another match
         neigh = [n for n in g.neighbors(w) if n != v]
+        taken.update(neigh)
         m.append((v,w,phases[v],phases[w],neigh))
         candidates.discard(w)
         candidates.difference_update(neigh)
@@ -1006,7 +1008,7 @@ def apply_copy(g: BaseGraph[VT,ET], matches: List[MatchCopyType[VT]]) -> Rewrite
                 e = g.edge(w,n)
                 et = g.edge_type(e)
                 g.add_edge((n,u), toggle_edge(et))
-            g.add_to_phase(n, a)
+            else: g.add_to_phase(n, a)
     return ({}, rem, [], True)
 
 MatchPhasePolyType = Tuple[List[VT], Dict[FrozenSet[VT],Union[VT,Tuple[VT,VT]]]]
-- 
2.43.0


From 36e70532d6725a7a4bcd563367b5944834316fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 05/92] fix: supplementarity does not use a spider in two
 matches

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 80cea53..c136008 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -911,6 +911,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
         par = frozenset(neigh)
         if par in parities:
             for w in parities[par]:
+                if w in taken: continue
                 if (phases[v]-phases[w]) % 2 == 1 or (phases[v]+phases[w]) % 2 == 1:
                     m.append((v,w,1,par))
                     taken.update({v,w})
-- 
2.43.0


From 003945b839131c183606c4cf3deb46443932bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 06/92] fix: R13 phase polynomial rewrite tracks its scalar

---
 pyzx/rules.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index c136008..d703198 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -1082,6 +1082,7 @@ def apply_gadget_phasepoly(g: BaseGraph[VT,ET], matches: List[MatchPhasePolyType
                     n,v = gadgets[f] # type: ignore # complex typing situation
                     phase = phases[v]
                     if phases[n]:
+                        g.scalar.add_phase(phase)
                         phase = -phase
                         g.set_phase(n,0)
                 else:
@@ -1089,6 +1090,7 @@ def apply_gadget_phasepoly(g: BaseGraph[VT,ET], matches: List[MatchPhasePolyType
                     v = g.add_vertex(VertexType.Z,-2, rs[v2]+0.5)
                     phase = 0
                     g.add_edges([(n,v),(v1,n),(v2,n)],EdgeType.HADAMARD)
+                    g.scalar.add_power(1)
                 g.set_phase(v, phase + Fraction(3,4))
 
                 for k in range(j+1,4):
@@ -1098,6 +1100,7 @@ def apply_gadget_phasepoly(g: BaseGraph[VT,ET], matches: List[MatchPhasePolyType
                         n,v = gadgets[f] # type: ignore
                         phase = phases[v]
                         if phases[n]:
+                            g.scalar.add_phase(phase)
                             phase = -phase
                             g.set_phase(n,0)
                     else:
@@ -1105,12 +1108,14 @@ def apply_gadget_phasepoly(g: BaseGraph[VT,ET], matches: List[MatchPhasePolyType
                         v = g.add_vertex(VertexType.Z,-2, rs[v3]+0.5)
                         phase = 0
                         g.add_edges([(n,v),(v1,n),(v2,n),(v3,n)],EdgeType.HADAMARD)
+                        g.scalar.add_power(2)
                     g.set_phase(v, phase + Fraction(1,4))
         f = frozenset(group)
         if f in gadgets:
             n,v = gadgets[f] # type: ignore
             phase = phases[v]
             if phases[n]:
+                g.scalar.add_phase(phase)
                 phase = -phase
                 g.set_phase(n,0)
         else:
@@ -1118,4 +1123,5 @@ def apply_gadget_phasepoly(g: BaseGraph[VT,ET], matches: List[MatchPhasePolyType
             v = g.add_vertex(VertexType.Z, -2, rs[group[0]]+0.5)
             phase = 0
             g.add_edges([(n,v)]+[(n,w) for w in group],EdgeType.HADAMARD)
+            g.scalar.add_power(3)
         g.set_phase(v, phase + Fraction(7,4))
-- 
2.43.0


From a455d8a202d6d5cf77f7d2670a3177327bb60cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 07/92] fix: removing isolated Z-boxes accounts for their
 labels

---
 pyzx/graph/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 7420213..8998e65 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -778,6 +778,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     raise TypeError("Diagram is not a well-typed ZX-diagram: contains isolated boundary vertex.")
                 elif ty == VertexType.H_BOX:
                     self.scalar.add_phase(self.phase(v))
+                elif ty == VertexType.Z_BOX:
+                    self.scalar.add_float(1 + get_z_box_label(self, v))
                 else: self.scalar.add_node(self.phase(v))
             if d == 1: # It has a unique neighbor
                 if v in rem: continue # Already taken care of
@@ -793,7 +795,14 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 t2 = self.type(w)
                 if t1 == VertexType.H_BOX: t1 = VertexType.Z # 1-ary H-box is just a Z spider
                 if t2 == VertexType.H_BOX: t2 = VertexType.Z
-                if t1==t2:
+                if VertexType.Z_BOX in (t1, t2):
+                    l1, l2 = (get_z_box_label(self, u) if self.type(u) == VertexType.Z_BOX
+                              else np.exp(1j*np.pi*float(self.phase(u))) for u in (v, w))
+                    if (t1 == VertexType.X or t2 == VertexType.X) == (et == EdgeType.SIMPLE):
+                        self.scalar.add_float(1 + l1 + l2 - l1*l2)
+                        self.scalar.add_power(-1)
+                    else: self.scalar.add_float(1 + l1*l2)
+                elif t1==t2:
                     if et == EdgeType.SIMPLE:
                         self.scalar.add_node(self.phase(v)+self.phase(w))
                     else:
-- 
2.43.0


From 228cad5068442473931a11c3581ed71303a4a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 08/92] fix: scalar of a spider pair, zero detection of legless
 spiders, complex() of zero scalars

---
 pyzx/graph/scalar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 7d9e2a9..1932881 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -110,7 +110,7 @@ class Scalar(object):
         return self.copy(conjugate=True)
 
     def to_number(self) -> complex:
-        if self.is_zero: return 0
+        if self.is_zero: return 0j
         val = cexp(self.phase)
         for node in self.phasenodes: # Node should be a Fraction
             val *= 1+cexp(node)
@@ -213,11 +213,11 @@ class Scalar(object):
     def add_node(self, node: FractionLike) -> None:
         """A solitary spider with a phase ``node`` is converted into the
         scalar 1+e^(i*pi*node)."""
-        if node == 0:
+        if node % 2 == 0:
             self.power2 += 2
         else:
             self.phasenodes.append(node)
-        if node == 1: self.is_zero = True
+        if node % 2 == 1: self.is_zero = True
     def add_float(self,f: complex) -> None:
         if f == 0.0:
             self.is_zero = True
@@ -237,6 +237,7 @@ class Scalar(object):
         # These if statements look quite arbitrary, but they are just calculations of the scalar
         # of a pair of connected single wire spiders of opposite colors.
         # We make special cases for Clifford phases and pi/4 phases.
+        p1, p2 = p1 % 2, p2 % 2
         if p2 in (0,1):
             p1,p2 = p2, p1
         if p1 == 0:
@@ -265,7 +266,7 @@ class Scalar(object):
                     self.add_phase(Fraction(1))
                 return
             self.add_power(1)
-            self.add_float(math.cos(p1))
+            self.add_float(math.cos(math.pi*p1))
             return
         # Generic case
         self.add_power(-1)
-- 
2.43.0


From f77beb306d6fef09a21af6de35a3d07b919318fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 09/92] fix: scalars survive saving to and loading from json

---
 pyzx/graph/scalar.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 1932881..fdf095d 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -20,11 +20,11 @@ import math
 import cmath
 import copy
 from fractions import Fraction
-from typing import List
+from typing import Dict, List
 import json
 
 from ..utils import FloatInt, FractionLike
-from ..symbolic import Poly
+from ..symbolic import Poly, new_var, parse
 
 __all__ = ['Scalar']
 
@@ -180,22 +180,36 @@ class Scalar(object):
 
     def to_json(self) -> str:
         d = {"power2": self.power2, "phase": str(self.phase)}
-        if abs(self.floatfactor - 1) > 0.00001:
-            d["floatfactor"] =  self.floatfactor
+        if self.floatfactor != 1:
+            if isinstance(self.floatfactor, complex):
+                d["floatfactor"] = [self.floatfactor.real, self.floatfactor.imag]
+            else:
+                d["floatfactor"] = self.floatfactor
         if self.phasenodes:
             d["phasenodes"] = [str(p) for p in self.phasenodes]
         if self.is_zero:
             d["is_zero"] = self.is_zero
         if self.is_unknown:
-            d["is_unknown"] = self.is_unknown,
+            d["is_unknown"] = self.is_unknown
+        polys = [p for p in [self.phase] + self.phasenodes if isinstance(p, Poly)]
+        if polys:
+            d["variable_types"] = {v.name: v.is_bool for p in polys for v in p.free_vars()}
         return json.dumps(d)
 
     @classmethod
     def from_json(cls, s: str) -> 'Scalar':
         d = json.loads(s)
-        d["phase"] = Fraction(d["phase"])
+        types: Dict[str, bool] = d.pop("variable_types", {})
+        def to_phase(p: str) -> FractionLike:
+            try:
+                return Fraction(p)
+            except ValueError:
+                return parse(p, lambda name: new_var(name, types.get(name, False)))
+        d["phase"] = to_phase(d["phase"])
         if "phasenodes" in d:
-            d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
+            d["phasenodes"] = [to_phase(p) for p in d["phasenodes"]]
+        if isinstance(d.get("floatfactor"), list):
+            d["floatfactor"] = complex(*d["floatfactor"])
         scalar = Scalar()
         scalar.__dict__.update(d)
         return scalar
-- 
2.43.0


From 521a89986e51375aceaaaeb40e18eda650359a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 10/92] fix: reducing symbolic phases modulo two keeps their
 value, Boolean symbols are idempotent

---
 pyzx/symbolic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 152b888..295b0de 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -114,7 +114,7 @@ class Term:
             if v not in vs: vs[v] = c
             else: vs[v] += c
             # TODO deal with fractional / symbolic powers
-            if v.is_bool and c > 1:
+            if v.is_bool and vs[v] > 1:
                 vs[v] = 1
         return Term([(v, c) for v, c in vs.items()])
 
@@ -227,7 +227,13 @@ class Poly:
         return self * (self ** (other - 1))
 
     def __mod__(self, other: int) -> 'Poly':
-        return Poly([(c % other, t) for c, t in self.terms if not isinstance(c, complex)])
+        # Only terms that are always integer multiples of their coefficient can have the coefficient reduced
+        terms = []
+        for c, t in self.terms:
+            if isinstance(c, complex): continue
+            if all(v.is_bool for v, _ in t.vars): c = c % other
+            if c != 0: terms.append((c, t))
+        return Poly(terms)
 
     def __repr__(self) -> str:
         return f'Poly({str(self)})'
-- 
2.43.0


From f646f6b3031e7dfb5b3b112ecf6cf4f572cbce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 11/92] fix: printed symbolic phases can be parsed back

---
 pyzx/symbolic.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 295b0de..3c57606 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -247,7 +247,7 @@ class Poly:
                 ts.append(f'{t}')
             else:
                 ts.append(f'{c}{t}')
-        return ' + '.join(ts)
+        return ' + '.join(ts) if ts else '0'
 
     def __eq__(self, other: object) -> bool:
         if isinstance(other, (int, float, Fraction)):
@@ -341,9 +341,12 @@ def new_const(coeff: Union[int, Fraction]) -> Poly:
 
 
 poly_grammar = Lark("""
-    start      : "(" start ")" | term ("+" term)*
+    start      : "(" start ")" | _signed ("+" _signed)*
+    _signed    : term | neg
+    neg        : "-" term
     term       : (intf | frac)? factor ("*" factor)*
-    ?factor    : intf | frac | pi | pifrac | var
+    ?factor    : intf | frac | pi | pifrac | var | power
+    power      : var "^" INT
     var        : CNAME
     intf       : INT
     pi         : "\\pi" | "pi"
@@ -368,7 +371,15 @@ class PolyTransformer(Transformer):
         return reduce(add, items)
 
     def term(self, items: List[Poly]) -> Poly:
-        return reduce(mul, items)
+        # Multiply the numbers last, as coefficients of Boolean terms are reduced modulo 2
+        consts = [p for p in items if not p.free_vars()]
+        return reduce(mul, [p for p in items if p.free_vars()] + [reduce(mul, consts, new_const(1))])
+
+    def neg(self, items: List[Poly]) -> Poly:
+        return -items[0]
+
+    def power(self, items: List[Any]) -> Poly:
+        return items[0] ** int(items[1])
 
     def var(self, items: List[Any]) -> Poly:
         v = str(items[0])
-- 
2.43.0


From 570b9936f615522bdbd9db5c1fc9118a6f7997e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 12/92] fix: to_cnots works for matrices with a single row

---
 pyzx/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 994bfea..340dc3f 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -350,12 +350,12 @@ class Mat2(object):
             cn = CNOTMaker()
             blocksize = 5
             if use_log_blocksize:
-                blocksize = int(math.log2(self.rows()))
+                blocksize = max(1, int(math.log2(max(1, self.rows()))))
             self.copy().gauss(full_reduce=True,x=cn, blocksize=blocksize)
         else:
             best = 1000000
             best_cn = None
-            for size in range(1,self.rows()):
+            for size in range(1,max(2,self.rows())):
                 cn = CNOTMaker()
                 assert cn is not None
                 self.copy().gauss(full_reduce=True,x=cn, blocksize=size)
-- 
2.43.0


From efab11807fdddecc96b01dd99acf71a4093c06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 13/92] fix: multigraph auto-simplification gets the scalar,
 Z-boxes and self-loops right

---
 pyzx/graph/multigraph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index e3eaf1a..89445e9 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -188,17 +188,17 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                     self.scalar.add_power(-e.h)
                     e.h = 0
                 else: # apply spider and hopf to merge/cancel parallel edges
-                    if t1 == t2:
+                    if vertex_is_z_like(t1) == vertex_is_z_like(t2):
                         e.s = 1 if e.s > 0 else 0
-                        self.scalar.add_power(-2 * (e.h - (e.h % 2)))
+                        self.scalar.add_power(-(e.h - (e.h % 2)))
                         e.h = e.h % 2
                     else:
                         e.h = 1 if e.h > 0 else 0
-                        self.scalar.add_power(-2 * (e.s - (e.s % 2)))
+                        self.scalar.add_power(-(e.s - (e.s % 2)))
                         e.s = e.s % 2
             if e.is_empty():
                 del self.graph[s][t]
-                del self.graph[t][s]
+                if s != t: del self.graph[t][s]
 
         return (s,t, edgetype) if s <= t else (t,s,edgetype)
 
-- 
2.43.0


From e3d2620b209ef5420640621a3edff4d54d4606f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 14/92] fix: multigraph edge names, listings, counts and
 degrees agree with each other

---
 pyzx/graph/multigraph.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 89445e9..0d3aad6 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -162,7 +162,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
 
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
         self.nedges += 1
-        s,t = edge_pair
+        s,t = edge_pair[0], edge_pair[1]
         if not t in self.graph[s]:
             e = Edge()
             self.graph[s][t] = e
@@ -253,8 +253,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return len(self.graph)
 
     def num_edges(self):
-        return self.nedges
-        #return len(self.edge_set())
+        return sum(1 for _ in self.edges())
 
     def vertices(self):
         return self.graph.keys()
@@ -275,7 +274,10 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                         for _ in range(e.s): yield (v0, v1, EdgeType.SIMPLE)
                         for _ in range(e.h): yield (v0, v1, EdgeType.HADAMARD)
                         for _ in range(e.w_io): yield (v0, v1, EdgeType.W_IO)
-        elif t != None:
+        elif t == None:
+            for v1 in self.graph[s]:
+                yield from self.edges(s, v1)
+        elif t in self.graph[s]:
             s, t = (s, t) if s < t else (t, s)
             e = self.graph[s][t]
             for _ in range(e.s): yield (s, t, EdgeType.SIMPLE)
@@ -304,8 +306,10 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
     #                    if v1 > v0:
     #                        yield (v0,v1)
 
-    def edge(self, s, t):
-        return (s,t) if s < t else (t,s)
+    def edge(self, s, t, et=None):
+        if et is None: # the type of the first edge between s and t
+            et = next((e[2] for e in self.edges(s,t)), EdgeType.SIMPLE)
+        return (s,t,et) if s < t else (t,s,et)
 
     def edge_set(self):
         return Counter(self.edges())
@@ -321,6 +325,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         for e in self.graph[vertex].values():
             d += e.s
             d += e.h
+            d += e.w_io
         return d
 
     def incident_edges(self, vertex):
-- 
2.43.0


From 7bec8e86e12782bb14895377b40f48400485a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 15/92] fix: self-loops and parallel edges added to a simple
 graph keep the linear map; edges(s,t) lists only existing edges

---
 pyzx/graph/graph_s.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 902479c..557b6b8 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -115,13 +115,25 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
 
     def add_edges(self, edge_pairs, edgetype=EdgeType.SIMPLE):
         for s,t in edge_pairs:
-            self.nedges += 1
+            if s == t or (t in self.graph[s] and vertex_is_zx_like(self.ty[s]) and vertex_is_zx_like(self.ty[t])):
+                self.add_edge((s,t), edgetype)
+                continue
+            if t not in self.graph[s]: self.nedges += 1
             self.graph[s][t] = edgetype
             self.graph[t][s] = edgetype
     
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
         s,t = edge_pair
-        if not t in self.graph[s]:
+        if s == t: # self-loops only change the phase and the scalar
+            if not vertex_is_zx_like(self.ty[s]) or edgetype not in (EdgeType.SIMPLE, EdgeType.HADAMARD):
+                raise ValueError(f'Attempted to add unreducible self-loop {edge_pair}, type: {self.ty[s]}')
+            if edgetype == EdgeType.HADAMARD:
+                if self.ty[s] == VertexType.Z_BOX:
+                    set_z_box_label(self, s, get_z_box_label(self, s) * -1)
+                else:
+                    self.add_to_phase(s, 1)
+                self.scalar.add_power(-1)
+        elif not t in self.graph[s]:
             self.nedges += 1
             self.graph[s][t] = edgetype
             self.graph[t][s] = edgetype
@@ -219,6 +231,7 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
 
     def edges(self, s=None, t=None):
         if s is not None and t is not None:
+            if t in self.graph[s]:
                 yield (s,t) if s < t else (t,s)
         elif s is not None:
             for t in self.graph[s]:
-- 
2.43.0


From f39171813b033c0b839c3424bea23fef4b91080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 16/92] fix: clones keep grounds, variable types and settings,
 and share no state with the original

---
 pyzx/graph/graph_s.py    |  5 ++++-
 pyzx/graph/multigraph.py | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 557b6b8..2a1ab56 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -56,7 +56,10 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
+        cpy._grounds = self._grounds.copy()
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 0d3aad6..ed9d342 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -83,8 +83,13 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
 
     def clone(self) -> 'Multigraph':
         cpy = Multigraph()
+        cpy._auto_simplify = self._auto_simplify
+        for v in self.graph:
+            cpy.graph[v] = dict()
         for v, d in self.graph.items():
-            cpy.graph[v] = d.copy()
+            for w, e in d.items():
+                if w not in cpy.graph[v]:
+                    cpy.graph[v][w] = cpy.graph[w][v] = Edge(e.s, e.h, e.w_io)
         cpy._vindex = self._vindex
         cpy.nedges = self.nedges
         cpy.ty = self.ty.copy()
@@ -93,7 +98,10 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
+        cpy._grounds = self._grounds.copy()
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
-- 
2.43.0


From 00bccb0b3242e8bbdb637bc634edbd5f2cc8ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 17/92] fix: adjoint conjugates Z-box labels, copies keep
 variable types

---
 pyzx/graph/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 8998e65..cf06d1b 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -152,6 +152,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         g.track_phases = self.track_phases
         g.scalar = self.scalar.copy(conjugate=adjoint)
         g.merge_vdata = self.merge_vdata
+        g.variable_types = self.variable_types.copy()
         mult:int = 1
         if adjoint:
             mult = -1
@@ -172,6 +173,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             vtab[v] = i
             for k in self.vdata_keys(v):
                 g.set_vdata(i, k, self.vdata(v, k))
+            if adjoint and ty[v] == VertexType.Z_BOX:
+                set_z_box_label(g, i, np.conj(get_z_box_label(self, v)))
         for v in self.grounds():
             g.set_ground(vtab[v], True)
 
-- 
2.43.0


From df5518c6bf9436e871de43cbd4d137d5724acd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 18/92] fix: composing diagrams whose plugged wires are
 connected to each other

---
 pyzx/graph/base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index cf06d1b..d4b655f 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -274,6 +274,17 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         if len(outputs) != len(inputs):
             raise TypeError("Outputs of first graph must match inputs of second.")
 
+        # Wires between two plugged vertices get an identity spider, so that every plug has a neighbor that stays
+        for h, plugged in ((self, outputs), (other, inputs)):
+            for b in plugged:
+                for n in list(h.neighbors(b)):
+                    if n in plugged:
+                        et = h.edge_type(h.edge(b,n))
+                        h.remove_edge(h.edge(b,n))
+                        mid = h.add_vertex(VertexType.Z, h.qubit(b), h.row(b))
+                        h.add_edge((b,mid), et)
+                        h.add_edge((mid,n))
+
         plugs: List[Tuple[VT,VT,EdgeType]] = []
         for k in range(len(outputs)):
             o = outputs[k]
@@ -289,6 +300,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 else EdgeType.SIMPLE))
 
         self.scalar.mult_with_scalar(other.scalar)
+        self.variable_types.update(other.variable_types)
         maxr = max((self.row(v) for v in self.vertices()
                     if self.type(v) != VertexType.BOUNDARY), default=0)
         minr = min((other.row(v) for v in other.vertices()
-- 
2.43.0


From 23986388788c066fbaeaf5c5d8967d96e5b69ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 19/92] fix: tensor product takes grounds and vertex data from
 the right graph

---
 pyzx/graph/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index d4b655f..acecdb5 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -336,16 +336,17 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         Can also be called using the operator ``graph1 @ graph2``"""
         g = self.copy()
         g.scalar.mult_with_scalar(other.scalar)
+        g.variable_types.update(other.variable_types)
         ts = other.types()
         qs = other.qubits()
         height = max((self.qubits().values()), default=0) + 1
         rs = other.rows()
         phases = other.phases()
-        vdata = other._vdata
         vertex_map = dict()
         for v in other.vertices():
-            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],g.is_ground(v))
-            if v in vdata: g._vdata[w] = vdata[v]
+            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],other.is_ground(v))
+            for k in other.vdata_keys(v):
+                g.set_vdata(w, k, other.vdata(v, k))
             vertex_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
-- 
2.43.0


From 2349b74ac1540f9d995c67cdc675227e952fd1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 20/92] fix: merging and extracting subgraphs keeps vertex data
 and scalar and reports the new edges

---
 pyzx/graph/base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index acecdb5..f1ea63a 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -399,12 +399,15 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         edges = []
         for v in other.vertices():
             w = self.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            for k in other.vdata_keys(v):
+                self.set_vdata(w, k, other.vdata(v, k))
             vert_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
             f = (vert_map[s],vert_map[t])
-            self.add_edge(f,other.edge_type(e))
-            edges.append(e)
+            edges.append(self.add_edge(f,other.edge_type(e)))
+        self.scalar.mult_with_scalar(other.scalar)
+        self.variable_types.update(other.variable_types)
         return (list(vert_map.values()),edges)
 
     def subgraph_from_vertices(self,verts: List[VT]) -> 'BaseGraph':
@@ -412,6 +415,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         from .graph import Graph # imported here to prevent circularity
         from .multigraph import Multigraph
         g = Graph(backend=type(self).backend)
+        g.variable_types = self.variable_types.copy()
         if isinstance(self, Multigraph) and isinstance(g, Multigraph):
             g.set_auto_simplify(self._auto_simplify) # type: ignore
             # mypy issue https://github.com/python/mypy/issues/16413
@@ -427,11 +431,12 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         vert_map = dict()
         for v in verts:
             w = g.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            for k in self.vdata_keys(v):
+                g.set_vdata(w, k, self.vdata(v, k))
             vert_map[v] = w
         for e in edges:
             s,t = self.edge_st(e)
-            f = g.edge(vert_map[s],vert_map[t])
-            g.add_edge(f,self.edge_type(e))
+            g.add_edge((vert_map[s],vert_map[t]),self.edge_type(e))
 
         return g
 
-- 
2.43.0


From 161f36b5c90ec5f85c19e1c4073010b3baae2d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 21/92] fix: plugging states or effects keeps the inputs or
 outputs not mentioned

---
 pyzx/graph/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index f1ea63a..b1e8b8a 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -465,7 +465,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.set_phase(v, Fraction(1))
             else:
                 raise TypeError("Unknown input state " + s)
-        self.set_inputs(tuple(new_inputs))
+        self.set_inputs(tuple(new_inputs) + inputs[len(state):])
 
     def apply_effect(self, effect: str) -> None:
         """Inserts an effect into the outputs of the graph. ``effect`` should be
@@ -492,7 +492,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.set_phase(v, Fraction(1))
             else:
                 raise TypeError("Unknown output effect " + s)
-        self.set_outputs(tuple(new_outputs))
+        self.set_outputs(tuple(new_outputs) + outputs[len(effect):])
 
     def to_tensor(self, preserve_scalar:bool=True) -> np.ndarray:
         """Returns a representation of the graph as a tensor using :func:`~pyzx.tensor.tensorfy`"""
-- 
2.43.0


From f1d97f602e6dec0eaf546adfde24112a2b4a8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 22/92] fix: conjugated Z-box labels stay plain numbers

---
 pyzx/graph/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index b1e8b8a..d901133 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -174,7 +174,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             for k in self.vdata_keys(v):
                 g.set_vdata(i, k, self.vdata(v, k))
             if adjoint and ty[v] == VertexType.Z_BOX:
-                set_z_box_label(g, i, np.conj(get_z_box_label(self, v)))
+                set_z_box_label(g, i, get_z_box_label(self, v).conjugate())
         for v in self.grounds():
             g.set_ground(vtab[v], True)
 
-- 
2.43.0


From 5c674bef1377786256a26863ffef41c665723001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 23/92] fix: edge_set of a multigraph is a set, so
 simplifications run on it

---
 pyzx/graph/diff.py       | 8 ++++----
 pyzx/graph/multigraph.py | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 66f2e64..3ec91aa 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -52,15 +52,15 @@ class GraphDiff(Generic[VT, ET]):
 		new_verts = g2.vertex_set()
 		self.removed_verts = list(old_verts - new_verts)
 		self.new_verts = list(new_verts - old_verts)
-		old_edges = g1.edge_set()
-		new_edges = g2.edge_set()
+		old_edges = Counter(g1.edges()) # with multiplicities
+		new_edges = Counter(g2.edges())
 		self.new_edges = []
 		self.removed_edges = []
 
-		for e in Counter(new_edges - old_edges).elements():
+		for e in (new_edges - old_edges).elements():
 			self.new_edges.append((g2.edge_st(e), g2.edge_type(e)))
 
-		for e in Counter(old_edges - new_edges).elements():
+		for e in (old_edges - new_edges).elements():
 			s,t = g1.edge_st(e)
 			self.removed_edges.append(e)
 
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index ed9d342..f68c58b 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -15,7 +15,6 @@
 # limitations under the License.
 
 import itertools
-from collections import Counter
 from fractions import Fraction
 from typing import Tuple, Dict, Set, Any
 
@@ -320,7 +319,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return (s,t,et) if s < t else (t,s,et)
 
     def edge_set(self):
-        return Counter(self.edges())
+        return set(self.edges())
 
     def edge_st(self, edge):
         return (edge[0], edge[1])
-- 
2.43.0


From b758bcd9f2ca03b53fd3436febb84e42edbe3099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:59 +0000
Subject: [PATCH 24/92] fix: simplification accepts symbolic phases everywhere
 it meets them

---
 pyzx/rules.py    | 9 ++++-----
 pyzx/simplify.py | 4 ++--
 pyzx/symbolic.py | 4 ++--
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index d703198..09d389d 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -55,7 +55,7 @@ import itertools
 
 import numpy as np
 
-from .utils import VertexType, EdgeType, get_w_partner, get_z_box_label, set_z_box_label, toggle_edge, vertex_is_w, vertex_is_zx, FloatInt, FractionLike, get_w_io, vertex_is_z_like
+from .utils import VertexType, EdgeType, get_w_partner, get_z_box_label, set_z_box_label, toggle_edge, vertex_is_w, vertex_is_zx, FloatInt, FractionLike, get_w_io, vertex_is_z_like, phase_is_clifford
 from .graph.base import BaseGraph, VT, ET
 from .symbolic import Poly
 
@@ -745,8 +745,7 @@ def lcomp(g: BaseGraph[VT,ET], matches: List[MatchLcompType[VT]]) -> RewriteOutp
     for m in matches:
         a = g.phase(m[0])
         rem.append(m[0])
-        assert isinstance(a,Fraction)  # For mypy
-        if a.numerator == 1: g.scalar.add_phase(Fraction(1,4))
+        if a == Fraction(1,2): g.scalar.add_phase(Fraction(1,4))
         else: g.scalar.add_phase(Fraction(7,4))
         n = len(m[1])
         g.scalar.add_power((n-2)*(n-1)//2)
@@ -905,7 +904,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     # First we find all the non-Clifford vertices and their list of neighbors
     while len(candidates) > 0:
         v = candidates.pop()
-        if phases[v] == 0 or phases[v].denominator <= 2: continue # Skip Clifford vertices
+        if phase_is_clifford(phases[v]): continue # Skip Clifford vertices
         neigh = set(g.neighbors(v))
         if not neigh.isdisjoint(taken): continue
         par = frozenset(neigh)
@@ -922,7 +921,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
             if v in taken: continue
         else: parities[par] = [v]
         for w in neigh:
-            if phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
+            if phase_is_clifford(phases[w]) or w in taken: continue
             diff = neigh.symmetric_difference(g.neighbors(w))
             if len(diff) == 2: # Perfect overlap
                 if (phases[v] + phases[w]) % 2 == 0 or (phases[v] - phases[w]) % 2 == 1:
diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index a0cda7f..9812068 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -30,7 +30,7 @@ __all__ = ['bialg_simp','spider_simp', 'id_simp', 'phase_free_simp', 'pivot_simp
 from optparse import Option
 from typing import List, Callable, Optional, Union, Generic, Tuple, Dict, Iterator, cast
 
-from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex
+from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex, phase_is_clifford
 from .rules import *
 from .graph.base import BaseGraph, VT, ET
 from .circuit import Circuit
@@ -308,7 +308,7 @@ def tcount(g: Union[BaseGraph[VT,ET], Circuit]) -> int:
     count = 0
     phases = g.phases()
     for v in g.vertices():
-        if phases[v]!=0 and phases[v].denominator > 2:
+        if not phase_is_clifford(phases[v]):
             count += 1
     return count
 
diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 3c57606..e49fe70 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -316,11 +316,11 @@ class Poly:
 
     @property
     def numerator(self) -> int:
-        raise NotImplementedError('numerator not implemented for symbolic Poly')
+        raise AttributeError('numerator not implemented for symbolic Poly')
 
     @property
     def denominator(self) -> int:
-        raise NotImplementedError('denominator not implemented for symbolic Poly')
+        raise AttributeError('denominator not implemented for symbolic Poly')
 
     def copy(self) -> 'Poly':
         return Poly([(c, t) for c, t in self.terms])
-- 
2.43.0


From d38814a658ca5226059aefa95af05a18ebfbcabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:59 +0000
Subject: [PATCH 25/92] fix: Clifford normal form keeps phases on plain
 boundary wires

---
 pyzx/simplify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 9812068..8d62273 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -548,7 +548,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,i)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=1, phase=g.phase(v))
-            g.add_edge((i,h),EdgeType.HADAMARD)
+            g.add_edge((i,h),g.edge_type(e))
             g.add_edge((h,v),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
@@ -560,7 +560,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,o)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=7, phase=g.phase(v))
-            g.add_edge((h,o),EdgeType.HADAMARD)
+            g.add_edge((h,o),g.edge_type(e))
             g.add_edge((v,h),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
-- 
2.43.0


From de2e47e284039d0b908dd8774e5c4cd0b63c36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:59 +0000
Subject: [PATCH 26/92] fix: to_graph_like keeps Hadamard wires between
 boundaries

---
 pyzx/simplify.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 8d62273..c892bd3 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -475,10 +475,16 @@ def to_graph_like(g: BaseGraph[VT,ET]) -> None:
             assert(g.type(n) in [VertexType.BOUNDARY, VertexType.H_BOX])
             if g.type(n) == VertexType.BOUNDARY:
                 z1 = g.add_vertex(ty=VertexType.Z)
-                z2 = g.add_vertex(ty=VertexType.Z)
                 z3 = g.add_vertex(ty=VertexType.Z)
-                g.remove_edge(g.edge(v, n))
+                e = g.edge(v, n)
+                et = g.edge_type(e)
+                g.remove_edge(e)
                 g.add_edge((v, z1), edgetype=EdgeType.SIMPLE)
+                if et == EdgeType.HADAMARD:
+                    g.add_edge((z1, z3), edgetype=EdgeType.HADAMARD)
+                    g.add_edge((z3, n), edgetype=EdgeType.SIMPLE)
+                    continue
+                z2 = g.add_vertex(ty=VertexType.Z)
                 g.add_edge((z1, z2), edgetype=EdgeType.HADAMARD)
                 g.add_edge((z2, z3), edgetype=EdgeType.HADAMARD)
                 g.add_edge((z3, n), edgetype=EdgeType.SIMPLE)
-- 
2.43.0


From 0afa8faba444050ae210a172f74772f445efe7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 27/92] fix: a symbolic phase that cancels to zero is false,
 like the number zero

---
 pyzx/symbolic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index e49fe70..7275e16 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -258,6 +258,9 @@ class Poly:
         if not isinstance(other, Poly): return False
         return set(self.terms) == set(other.terms)
 
+    def __bool__(self) -> bool:
+        return any(c != 0 for c, _ in self.terms)
+
     def __lt__(self, other: Union['Poly', Fraction, int, float, complex]) -> bool:
         if isinstance(other, (int, float, complex, Fraction)):
             other = Poly([(other, Term([]))])
-- 
2.43.0


From 9b03f8c09c0d26167e5244263995abb8050f6801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 28/92] fix: T-count of gates that expand into phase gates

---
 pyzx/circuit/gates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 7e93e76..4b25ada 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -209,7 +209,9 @@ class Gate(object):
         return g
 
     def tcount(self) -> int:
-        return 0
+        bg = self.to_basic_gates()
+        if len(bg) == 1 and type(bg[0]) == type(self): return 0
+        return sum(g.tcount() for g in bg)
 
     def reposition(self: Tvar, mask: List[int], bit_mask: Optional[List[int]] = None) -> Tvar:
         g = self.copy()
-- 
2.43.0


From bea8babfa4a43b1b9207061eabe30b34b2bcf862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 29/92] fix: tensoring and splitting circuits keep bits,
 expanded circuits share no gates with the original

---
 pyzx/circuit/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 1d349bf..eeb10b6 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -185,7 +185,7 @@ class Circuit(object):
             other = c2
         if not isinstance(other,Circuit):
             raise Exception("Cannot tensor type", type(other), "to Circuit")
-        c = Circuit(self.qubits + other.qubits)
+        c = Circuit(self.qubits + other.qubits, bit_amount=self.bits + other.bits)
         c.gates = [g.copy() for g in self.gates]
         mask = [i+self.qubits for i in range(other.qubits)]
         bit_mask = [i+self.bits for i in range(other.bits)]
@@ -197,16 +197,16 @@ class Circuit(object):
         and the 2-qubit gates CNOT, CZ, CX."""
         c = Circuit(self.qubits, name=self.name, bit_amount=self.bits)
         for g in self.gates:
-            c.gates.extend(g.to_basic_gates())
+            c.gates.extend(b.copy() for b in g.to_basic_gates())
         return c
 
     def split_phase_gates(self) -> 'Circuit':
-        c = Circuit(self.qubits, name=self.name)
+        c = Circuit(self.qubits, name=self.name, bit_amount=self.bits)
         for g in self.gates:
             if isinstance(g, (ZPhase, XPhase)):
-                c.gates.extend(g.split_phases())
+                c.gates.extend(b.copy() for b in g.split_phases())
             else:
-                c.add_gate(g)
+                c.add_gate(g.copy())
         return c
 
     ### OPERATORS
-- 
2.43.0


From 44971520a66a80d2fb7be9be4b3661b42069c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 30/92] fix: circuit depth counts every unitary gate

---
 pyzx/circuit/__init__.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index eeb10b6..518c404 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -21,7 +21,7 @@ import numpy as np
 
 from .gates import (Gate, gate_types, NOT, Y, Z, HAD, XPhase, YPhase, ZPhase, U2, U3, S, T, SX, SWAP, RXX, RZZ, CNOT,
                     CY, CZ, CHAD, CSX, XCX, CRX, CRY, CRZ, CPhase, CU3, CU, CSWAP, Tofolli, CCZ, ParityPhase, FSim,
-                    Measurement)
+                    Measurement, DiscardBit)
 
 from ..graph.base import BaseGraph
 from ..utils import EdgeType
@@ -505,18 +505,12 @@ class Circuit(object):
     def depth(self) -> int:
         min_depth = [0] * self.qubits
         for g in self.gates:
-            if isinstance(g, (ZPhase, XPhase, HAD)):
-                min_depth[g.target] += 1
-            elif isinstance(g, (CZ, CNOT, SWAP)):
-                gate_depth = max(min_depth[g.target], min_depth[g.control]) + 1
-                min_depth[g.target] = gate_depth
-                min_depth[g.control] = gate_depth
-            elif isinstance(g, (CCZ, Tofolli)):
-                gate_depth = max(min_depth[g.target], min_depth[g.ctrl1], min_depth[g.ctrl2]) + 1
-                min_depth[g.target] = gate_depth
-                min_depth[g.ctrl1] = gate_depth
-                min_depth[g.ctrl2] = gate_depth
-        return max(min_depth)
+            if isinstance(g, (Measurement, DiscardBit)) or not (hasattr(g, "target") or hasattr(g, "targets")): continue
+            if isinstance(g, ParityPhase): qubits = list(g.targets)
+            else: qubits = [getattr(g, a) for a in ("ctrl1", "ctrl2", "control", "target") if hasattr(g, a)]
+            gate_depth = max(min_depth[q] for q in qubits) + 1
+            for q in qubits: min_depth[q] = gate_depth
+        return max(min_depth, default=0)
 
 
 def determine_file_type(circuitfile: str) -> str:
-- 
2.43.0


From 3a5295d2445964b2067aa2ab8f128babd5a8a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 31/92] fix: measurements compare equal to their copies and
 need no result bit to be drawn

---
 pyzx/circuit/gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 4b25ada..e0f0629 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1215,7 +1215,7 @@ class Measurement(Gate):
         if not isinstance(other, Measurement): return False
         if self.target != other.target: return False
         if self.result_bit != other.result_bit: return False
-        return False
+        return True
 
     def reposition(self, mask, bit_mask = None):
         g = self.copy()
@@ -1230,7 +1230,7 @@ class Measurement(Gate):
             DiscardBit(self.result_bit).to_graph(g, q_mapper, c_mapper)
         # Qubit measurement
         r = q_mapper.next_row(self.target)
-        if self.result_bit is None:
+        if self.result_bit is not None:
             r = max(r, c_mapper.next_row(self.result_bit))
         v = self.graph_add_node(g,
             q_mapper,
-- 
2.43.0


From 009605e51b6fa5e1224242e6e09c481df22930e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 32/92] fix: graph_to_circuit reads wires between X spiders as
 XCX gates

---
 pyzx/circuit/graphparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index 1ccea9e..d49349d 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -77,7 +77,7 @@ def graph_to_circuit(g:BaseGraph[VT,ET], split_phases:bool=True) -> Circuit:
                     if g.edge_type(g.edge(v,n)) != EdgeType.HADAMARD:
                         raise TypeError("Invalid vertical connection between vertices of the same type")
                     if t == VertexType.Z: c.add_gate("CZ", q2, q)
-                    else: c.add_gate("CX", q2, q)
+                    else: c.add_gate("XCX", q2, q)
                 else:
                     if g.edge_type(g.edge(v,n)) != EdgeType.SIMPLE:
                         raise TypeError("Invalid vertical connection between vertices of different type")
-- 
2.43.0


From 252f7423fe6c06afe3baf730b18ee4e35b0c6206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 33/92] fix: gates with different angle lists do not compare
 equal

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index e0f0629..8f313e8 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -167,7 +167,7 @@ class Gate(object):
 
     def __eq__(self, other: object) -> bool:
         if type(self) != type(other): return False
-        for a in ["target","control","phase","adjoint"]:
+        for a in ["target","control","phase","phases","adjoint"]:
             if hasattr(self,a):
                 if not hasattr(other,a): return False
                 if getattr(self,a) != getattr(other,a): return False
-- 
2.43.0


From 08c1715ebbcfa95532b14cab58de07f6929ed481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 34/92] fix: diagrams given to and returned by teleport_reduce
 can be simplified further

---
 pyzx/simplify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index c892bd3..8dddd9c 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -215,15 +215,18 @@ def teleport_reduce(g: BaseGraph[VT,ET], quiet:bool=True, stats:Optional[Stats]=
     The only thing that is different in the output graph are the location and value of the phases."""
     s = Simplifier(g)
     s.full_reduce(quiet=quiet, stats=stats)
+    s.mastergraph.track_phases = False
     return s.mastergraph
 
 
 class Simplifier(Generic[VT, ET]):
     """Class used for :func:`teleport_reduce`."""
     def __init__(self, g: BaseGraph[VT,ET]) -> None:
+        track_phases = g.track_phases
         g.track_phases = True
         self.mastergraph = g.copy()
         self.simplifygraph = g.copy()
+        g.track_phases = track_phases
         self.simplifygraph.set_phase_master(self)
         self.phantom_phases: Dict[VT, Tuple[VT,int]] = dict()
 
-- 
2.43.0


From 612a5f156fcc692ae6b0179e59ccf79832513953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 35/92] fix: Clifford extraction rejects diagrams that are not
 unitary

---
 pyzx/extract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/extract.py b/pyzx/extract.py
index c1de2ec..61bf41f 100644
--- a/pyzx/extract.py
+++ b/pyzx/extract.py
@@ -847,6 +847,8 @@ def extract_clifford_normal_form(g: BaseGraph[VT,ET]) -> Circuit:
                 c.add_gate(CZ(q1,q2))
 
     adj = bi_adj(g, v_outputs, v_inputs)
+    if adj.rank() != len(inputs) or set(g.vertices()) != set(inputs + outputs + v_inputs + v_outputs):
+        raise ValueError("The Clifford diagram is not unitary. Currently only unitary Clifford extraction is supported.")
     for cnot in adj.to_cnots(use_log_blocksize=True):
         c.add_gate(cnot)
 
-- 
2.43.0


From 9df09bf43d79e866c5198f74ebe0b27f8946312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 36/92] fix: extraction does not pivot on spiders without a
 Pauli phase or next to an input

---
 pyzx/extract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/extract.py b/pyzx/extract.py
index 61bf41f..c029b66 100644
--- a/pyzx/extract.py
+++ b/pyzx/extract.py
@@ -625,6 +625,8 @@ def extract_circuit(
     for v in g.vertices():
         if g.vertex_degree(v) == 1 and v not in inputs and v not in outputs:
             n = list(g.neighbors(v))[0]
+            # Can only pivot on spiders with a Pauli phase that are not connected to an input
+            if g.phase(n) not in (0, 1) or any(w in inputs for w in g.neighbors(n)): continue
             gadgets[n] = v
 
     qubit_map: Dict[VT,int] = dict()
@@ -1343,6 +1345,8 @@ def lookahead_extract_base(
     for v in g.vertices():
         if g.vertex_degree(v) == 1 and v not in inputs and v not in outputs:
             n = list(g.neighbors(v))[0]
+            # Can only pivot on spiders with a Pauli phase that are not connected to an input
+            if g.phase(n) not in (0, 1) or any(w in inputs for w in g.neighbors(n)): continue
             gadgets[n] = v
 
     qubit_map: Dict[VT, int] = dict()
-- 
2.43.0


From f76854cbe0924f534e77e4e6254f78bd41da8ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 37/92] fix: phase teleportation keeps the sign of phases that
 take over the place of a Clifford phase

---
 pyzx/simplify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 8dddd9c..73a6db6 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -256,8 +256,9 @@ class Simplifier(Generic[VT, ET]):
                 p1 = self.mastergraph.phase(v3)
                 if (p1+p2).denominator <= 2:
                     del self.phantom_phases[v1]
-                v1,i1 = v3,i3
                 m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
+                self.simplifygraph.phase_mult[i1] = m1 # i1 now stands for the phase of v3
+                v1,i1 = v3,i3
             else:
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
-- 
2.43.0


From 03caec6cf8b5bebaa3b52770facb3d57bec676f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 38/92] fix: json output gives every vertex its own name

---
 pyzx/graph/jsonparser.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index e2bb638..6e0c492 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -17,7 +17,7 @@
 import json
 import re
 from fractions import Fraction
-from typing import List, Dict, Any, Optional, Callable, Union, TYPE_CHECKING
+from typing import List, Dict, Any, Optional, Callable, Set, Union, TYPE_CHECKING
 
 from ..utils import FractionLike, EdgeType, VertexType, phase_to_s
 from .graph import Graph
@@ -185,22 +185,20 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
     wire_vs: Dict[str, Dict[str, Any]] = {}
     edges: Dict[str, Dict[str, str]] = {}
     names: Dict[VT, str] = {}
-    freenamesv = ["v"+str(i) for i in range(g.num_vertices()+g.num_edges())]
-    freenamesb = ["b"+str(i) for i in range(g.num_vertices())]
+    givennames = set(g.vdata(v, 'name') for v in g.vertices())
+    usednames: Set[str] = set()
+    freenamesv = [n for n in ("v"+str(i) for i in range(2*g.num_vertices()+g.num_edges())) if n not in givennames]
+    freenamesb = [n for n in ("b"+str(i) for i in range(2*g.num_vertices())) if n not in givennames]
     inputs = g.inputs()
     outputs = g.outputs()
     for v in g.vertices():
         t = g.type(v)
         coord = [round(g.row(v),3),round(-g.qubit(v),3)]
         name = g.vdata(v, 'name')
-        if not name:
+        if not name or name in usednames:
             if t == VertexType.BOUNDARY: name = freenamesb.pop(0)
             else: name = freenamesv.pop(0)
-        else:
-            try:
-                freenamesb.remove(name) if t==VertexType.BOUNDARY else freenamesv.remove(name)
-            except:
-                pass
+        usednames.add(name)
 
         names[v] = name
         if t == VertexType.BOUNDARY:
-- 
2.43.0


From 6d8a82a1e15241232c562892c03899c4f9a53154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 39/92] fix: json strings that merely look like numbers are not
 turned into complex numbers

---
 pyzx/graph/jsonparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 6e0c492..985911c 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -337,7 +337,9 @@ class ComplexDecoder(json.JSONDecoder):
         for k, v in dct.items():
             if isinstance(v, str):
                 try:
-                    dct[k] = complex(v)
+                    c = complex(v)
+                    if str(c) == v: # Only strings that were written by ComplexEncoder
+                        dct[k] = c
                 except ValueError:
                     pass
         return dct
-- 
2.43.0


From c610e8b70761a8dc05005ccd2303e26a3bfe390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 40/92] fix: json stores phases with large denominators exactly
 and reads back integer Z-box labels

---
 pyzx/graph/jsonparser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 985911c..2336084 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -70,6 +70,13 @@ def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fract
         except Exception as e:
             raise ValueError(e)
 
+def phase_to_json(phase: FractionLike) -> str:
+    """The string a phase is stored as. In contrast to ``phase_to_s``, which is meant for display,
+    this never rounds the phase."""
+    if isinstance(phase, Fraction) and phase.denominator > 256:
+        return '{}\u03c0/{}'.format(phase.numerator, phase.denominator)
+    return phase_to_s(phase)
+
 def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
     """Converts the json representation of a .qgraph Quantomatic graph into
     a pyzx graph."""
@@ -228,11 +235,11 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
             elif t==VertexType.Z_BOX:
                 node_vs[name]["data"]["type"] = "Z_box"
                 zbox_label = g.vdata(v, 'label', 1)
-                if type(zbox_label) == Fraction:
-                    zbox_label = phase_to_s(zbox_label)
+                if isinstance(zbox_label, (int, Fraction)):
+                    zbox_label = phase_to_json(Fraction(zbox_label))
                 node_vs[name]["annotation"]["label"] = zbox_label
             else: raise Exception("Unkown vertex type "+ str(t))
-            phase = phase_to_s(g.phase(v))
+            phase = phase_to_json(g.phase(v))
             if phase: node_vs[name]["data"]["value"] = phase
             if g.is_ground(v):
                 node_vs[name]["data"]["ground"] = True
-- 
2.43.0


From f6349bb4c975a0b62528e5f6b519a1e4819748d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 41/92] fix: symbolic phases are not read as numbers when a
 diagram is loaded

---
 pyzx/graph/jsonparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 2336084..28085b3 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -73,6 +73,8 @@ def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fract
 def phase_to_json(phase: FractionLike) -> str:
     """The string a phase is stored as. In contrast to ``phase_to_s``, which is meant for display,
     this never rounds the phase."""
+    if isinstance(phase, Poly): # The brackets prevent '7E3' from being read as a number
+        return '({})'.format(phase) if phase.terms else ''
     if isinstance(phase, Fraction) and phase.denominator > 256:
         return '{}\u03c0/{}'.format(phase.numerator, phase.denominator)
     return phase_to_s(phase)
-- 
2.43.0


From 3d6c31d6f9bbfa3d322ac85b9e81cb75dca7c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 42/92] fix: tikz output connects the Hadamard node drawn on a
 boundary wire

---
 pyzx/tikz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 2372726..fc1a59c 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -113,6 +113,9 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 t = "        \\node [style={:s}] ({:d}) at ({:.2f}, {:.2f}) {{}};".format(settings.tikz_classes['H'],maxindex+1, x,y)
                 verts.append(t)
                 maxindex += 1
+                edges.append("        \\draw ({:d}) to ({:d});".format(v+idoffset,maxindex))
+                edges.append("        \\draw ({:d}) to ({:d});".format(maxindex,w+idoffset))
+                continue
         elif et == EdgeType.W_IO:
             style = settings.tikz_classes['W-io-edge']
             if style: s += "[style={:s}] ".format(style)
@@ -137,7 +140,7 @@ def to_tikz_sequence(graphs:List[BaseGraph], draw_scalar:bool=False, maxwidth:Fl
     idoffset = 0
     total_verts, total_edges = [],[]
     for g in graphs:
-        max_index = max(g.vertices()) + 2*g.num_inputs() + 2
+        max_index = max(g.vertices()) + g.num_inputs() + g.num_outputs() + 2
         verts, edges = _to_tikz(g,draw_scalar,xoffset,yoffset,idoffset)
         total_verts.extend(verts)
         total_edges.extend(edges)
-- 
2.43.0


From ac43cbccabd032c10c2c047e66c726cabc80d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 43/92] fix: tikz keeps integer phases and Z-box labels 0 and
 -1

---
 pyzx/tikz.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index fc1a59c..2194e5d 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -84,9 +84,9 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 if ty==VertexType.Z: style = settings.tikz_classes['Z']
                 else: style = settings.tikz_classes['X']
         if ((ty == VertexType.H_BOX or ty == VertexType.Z_BOX) and p == 1) or\
-            (ty != VertexType.H_BOX and p == 0):
+            (ty != VertexType.H_BOX and ty != VertexType.Z_BOX and p == 0):
             phase = ""
-        elif type(p) == Fraction:
+        elif type(p) == Fraction or (type(p) == int and ty != VertexType.Z_BOX):
             ns = '' if p.numerator == 1 else str(p.numerator)
             dn = '' if p.denominator == 1 else str(p.denominator)
             if dn: phase = r"$\frac{%s\pi}{%s}$" % (ns, dn)
@@ -292,8 +292,10 @@ def tikz_to_graph(
                     raise ValueError("Node definition %s has invalid phase label" % l)
             else:
                 label = label.replace(r'\pi','').strip()
-                if label == '' or label == '-' or label == '-1':
+                if label == '':
                     set_phase(v,1)
+                elif label == '-' or label == '-1':
+                    set_phase(v,-1)
                 elif label.find(r'\frac') != -1:
                     label = label.replace(r'\frac','').strip()
                     if label.find('}{') == -1:
-- 
2.43.0


From f26398d84f1f4b8bd32eaa51da77e3940861e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 44/92] fix: QASM identifiers may end in 'gate'

---
 pyzx/circuit/qasmparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index a92341e..2f8a971 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -67,8 +67,9 @@ class QASMParser(object):
         data = "\n".join(r)
         # Strip the custom command definitions from the normal commands
         while True:
-            i = data.find("gate ")
-            if i == -1: break
+            m = re.search(r"\bgate\s", data)
+            if not m: break
+            i = m.start()
             j = data.find("}", i)
             self.parse_custom_gate(data[i:j+1])
             data = data[:i] + data[j+1:]
-- 
2.43.0


From b80200349fe504238981be0e43ee31323b7436e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 45/92] fix: QASM parser rejects qubit indices outside of the
 register

---
 pyzx/circuit/qasmparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 2f8a971..692fae9 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -158,6 +158,8 @@ class QASMParser(object):
                 regname, valp = a.split("[",1)
                 val = int(valp[:-1])
                 if regname not in registers: raise TypeError("Invalid register {}".format(regname))
+                if not 0 <= val < registers[regname][1]:
+                    raise TypeError("Index out of range in {}".format(c))
                 qubit_values.append([registers[regname][0]+val])
             else:
                 if is_range:
-- 
2.43.0


From 96572c7bf0cd86d2c0b260f9eada08d4700c243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 46/92] fix: QASM parser rejects repeated qubits and wrong
 numbers of qubits

---
 pyzx/circuit/qasmparser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 692fae9..785ef99 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -25,6 +25,13 @@ from .gates import Gate, qasm_gate_table
 from ..utils import settings
 
 
+def qasm_gate_arity(name: str) -> int:
+    """The number of qubits that the built-in gate ``name`` acts on."""
+    if name in ('ccx', 'ccz', 'cswap'): return 3
+    if name in ('cx', 'CX', 'cy', 'cz', 'ch', 'csx', 'swap', 'crx', 'cry', 'crz', 'cp', 'cphase', 'cu1',
+                'rxx', 'rzz', 'cu3', 'cu'): return 2
+    return 1
+
 class QASMParser(object):
     """Class for parsing QASM source files into circuit descriptions."""
 
@@ -176,6 +183,10 @@ class QASMParser(object):
                     qubit_values[i] = [qubit_values[i][0]]*dim
         for j in range(dim):
             argset = [q[j] for q in qubit_values]
+            if len(set(argset)) != len(argset):
+                raise TypeError("Duplicate qubit in {}".format(c))
+            if name not in self.custom_gates and name in qasm_gate_table and len(argset) != qasm_gate_arity(name):
+                raise TypeError("Argument amount does not match gate spec: {}".format(c))
             if name in self.custom_gates:
                 circ = self.custom_gates[name]
                 if len(argset) != circ.qubits:
-- 
2.43.0


From fde846607d6b97d525e3a7ac1ad836c009bde2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 47/92] fix: QASM parser rejects angle expressions it cannot
 evaluate

---
 pyzx/circuit/qasmparser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 785ef99..b1e6af0 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -240,6 +240,10 @@ class QASMParser(object):
             phase = float(val)/math.pi
         except ValueError:
             if val.find('pi') == -1: raise TypeError("Invalid specification {}".format(val))
+            number = r'(\d+\.?\d*|\.\d+)(e[+-]?\d+)?'
+            forms = (r'-?({n}\s*\*?\s*)?pi(\s*/\s*-?\d+)?', r'-?\d+\s*/\s*\d+\s*\*?\s*pi', r'-?pi\s*\*\s*{n}')
+            if not any(re.fullmatch(f.replace('{n}', number), val.strip(), re.IGNORECASE) for f in forms):
+                raise TypeError("Invalid specification {}".format(val))
             try:
                 val = val.replace('pi', '')
                 val = val.replace('*','')
-- 
2.43.0


From c1a6d270014b41953dd8b8e3fde1e3fafbb701da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 48/92] fix: .qc parser reads the Y gate

---
 pyzx/circuit/qcparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/circuit/qcparser.py b/pyzx/circuit/qcparser.py
index adf82d3..66b34b7 100644
--- a/pyzx/circuit/qcparser.py
+++ b/pyzx/circuit/qcparser.py
@@ -50,6 +50,7 @@ def parse_qc(data: str) -> Circuit:
         if len(targets) == 1:
             t = targets[0]
             if gname in ('tof', 't1', 'not', 'x'): gates.append(NOT(t))
+            elif gname == 'y': gates.append(Y(t))
             elif gname == 'z': gates.append(Z(t))
             elif gname in ('s', 'p'): gates.append(S(t))
             elif gname in ('s*', 'p*'): gates.append(S(t,adjoint=True))
-- 
2.43.0


From 1910d57bbdc11e4035d890196e11d309d0e3e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 49/92] fix: CSWAP is not printed as CCZ in .qc and Quipper

---
 pyzx/circuit/gates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 8f313e8..6b6bc4b 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1006,6 +1006,7 @@ class CCZ(Gate):
         q_mapper.set_next_row(self.ctrl2, r+1)
 
     def to_quipper(self):
+        if self.quipper_name == 'undefined': return super().to_quipper()
         s = 'QGate["{}"]({!s})'.format(self.quipper_name,self.target)
         s += ' with controls=[+{!s},+{!s}]'.format(self.ctrl1,self.ctrl2)
         s += ' with nocontrol'
@@ -1041,6 +1042,8 @@ class Tofolli(CCZ):
 class CSWAP(CCZ):
     name = 'CSWAP'
     qasm_name = 'cswap'
+    qc_name = 'undefined'
+    quipper_name = 'undefined'
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, CSWAP): return False
-- 
2.43.0


From 48126355a47f62f3fc671c39a8bad65bff4ce442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 50/92] fix: QASM parser rejects registers declared twice

---
 pyzx/circuit/qasmparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index b1e6af0..3afc1df 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -154,6 +154,7 @@ class QASMParser(object):
         if name == "qreg":
             regname, sizep = args[0].split("[",1)
             size = int(sizep[:-1])
+            if regname in registers: raise TypeError("Duplicate register {}".format(regname))
             registers[regname] = (self.qubit_count, size)
             self.qubit_count += size
             return gates
-- 
2.43.0


From 1888e4bc78995932657ca9d31abda625389d8b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 51/92] fix: Quipper parser recovers rational angles exactly

---
 pyzx/circuit/quipperparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index 348e47c..ba5c818 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -61,7 +61,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
                 f = float(val)
             except ValueError:
                 raise TypeError("Unsupported expression: " + gate)
-            phase = Fraction(f/math.pi)
+            phase = Fraction(f/math.pi).limit_denominator(100000000)
             target = gate[gate.rfind('(')+1:gate.rfind(')')]
             try: 
                 t = int(target)
-- 
2.43.0


From 206c12325f5269090c322206a0d3e1d17e96fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 52/92] fix: Quipper format has the Pauli gates X and Y, and
 XCX is not printed as a controlled X

---
 pyzx/circuit/gates.py         | 2 +-
 pyzx/circuit/quipperparser.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 6b6bc4b..1a62e3c 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -627,7 +627,7 @@ class XCX(CZ):
     name = 'XCX'
     qasm_name = 'undefined'
     qc_name = 'undefined'
-    quipper_name = 'X'
+    quipper_name = 'undefined'
     def to_graph(self, g, q_mapper, _c_mapper):
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         t = self.graph_add_node(g, q_mapper, VertexType.X, self.target, r)
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index ba5c818..06f8500 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -78,7 +78,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         adjoint = g.find("*")!=-1
         if len(l) == 1 or (len(l) == 2 and l[1].find("nocontrol") != -1):  # no controls
             if gname == "H": c.add_gate("HAD", t)
-            elif gname == "not": c.add_gate("NOT", t)
+            elif gname in ("not", "X"): c.add_gate("NOT", t)
+            elif gname == "Y": c.add_gate("Y", t)
             elif gname == "Z": c.add_gate("Z", t)
             elif gname == "S": c.add_gate("S", t, adjoint=adjoint)
             elif gname == "T": c.add_gate("T", t, adjoint=adjoint)
@@ -110,7 +111,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         ctrl = int(ctrls[1:])
         if gname == "not": c.add_gate("CNOT", ctrl, t)
         elif gname == "Z": c.add_gate("CZ", ctrl, t)
-        elif gname == "X": c.add_gate("CX", ctrl, t)
+        elif gname == "X": c.add_gate("CNOT", ctrl, t)
         else:
             raise TypeError("Unsupported controlled gate: " + gname)
     return c
-- 
2.43.0


From 34167b7835226c11bd43f82a3685562d0619e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 53/92] fix: Y rotations and SX keep their angle in the Quipper
 format

---
 pyzx/circuit/gates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 1a62e3c..15cf0c6 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -448,11 +448,15 @@ class SX(XPhase):
     name = 'SX'
     qasm_name = 'sx'
     qasm_name_adjoint = 'sxdg'
+    quipper_name = 'undefined'
     print_phase = False
     def __init__(self, target: int, adjoint:bool=False) -> None:
         super().__init__(target, Fraction(1,2)*(-1 if adjoint else 1))
         self.adjoint = adjoint
 
+    def to_quipper(self):
+        return XPhase(self.target, self.phase).to_quipper()
+
 class CSX(Gate):
     name = 'CSX'
     qasm_name = 'csx'
@@ -479,7 +483,6 @@ class CSX(Gate):
 class YPhase(Gate):
     name = 'YPhase'
     qasm_name = 'ry'
-    quipper_name = 'YPhase'
     print_phase = True
     def __init__(self, target: int, phase: FractionLike=0) -> None:
         self.target = target
-- 
2.43.0


From 3380fef76fb3e5b202051a75476d4294a3ec80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 54/92] fix: adjoint gates without a .qc name are expanded into
 gates that have one

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 15cf0c6..3ed203f 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -262,7 +262,7 @@ class Gate(object):
 
     def to_qc(self) -> str:
         n = self.qc_name
-        if hasattr(self, "adjoint") and self.adjoint:
+        if n != 'undefined' and hasattr(self, "adjoint") and self.adjoint:
             n += "*"
         if n == 'undefined':
             if isinstance(self, (ZPhase, XPhase)):
-- 
2.43.0


From 4e4e86c845f916c3dad4593ee90d44ec91791f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 55/92] fix: qsim gate hz_1_2 is the square root of
 (X+Y)/sqrt(2)

---
 pyzx/circuit/qsimparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index e614fd0..41fe19c 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -40,9 +40,9 @@ def parse_qsim(data: str) -> Circuit:
             phase = float(gdesc[3]) / math.pi
             gates.append(ZPhase(target = q, phase = Fraction(phase)))
         elif gdesc[1] == 'hz_1_2':
-            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
-            gates.append(XPhase(target = q, phase = Fraction(1,2)))
             gates.append(ZPhase(target = q, phase = Fraction(-1,4)))
+            gates.append(XPhase(target = q, phase = Fraction(1,2)))
+            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
         elif gdesc[1] == 'x_1_2':
             gates.append(XPhase(target = q, phase = Fraction(1,2)))
         elif gdesc[1] == 'y_1_2':
-- 
2.43.0


From 312d99fa50da6cc6d20b378d5f1842501a7b6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 56/92] fix: qsim parser rejects gates it does not know

---
 pyzx/circuit/qsimparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index 41fe19c..3d5cca0 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -54,6 +54,8 @@ def parse_qsim(data: str) -> Circuit:
             theta = float(gdesc[4]) / math.pi
             phi = float(gdesc[5]) / math.pi
             gates.append(FSim(q, q1, Fraction(theta), Fraction(phi)))
+        else:
+            raise TypeError("Unknown gate: " + l)
 
     c = Circuit(qcount)
     c.gates = gates
-- 
2.43.0


From 594eb9ce52bc590c1dff3598c134facaec7733ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 57/92] fix: diagram differences carry the data of new vertices
 and share none of it

---
 pyzx/graph/diff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 3ec91aa..71dc661 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -71,7 +71,7 @@ class GraphDiff(Generic[VT, ET]):
 				if g1.phase(v) != g2.phase(v):
 					self.changed_phases[v] = g2.phase(v)
 				if g1._vdata.get(v, None) != g2._vdata.get(v, None):
-					self.changed_vdata[v] = g2._vdata.get(v, None)
+					self.changed_vdata[v] = copy.deepcopy(g2._vdata.get(v, {}))
 				pos1 = g1.qubit(v), g1.row(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				if pos1 != pos2:
@@ -83,6 +83,8 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_phases[v] = g2.phase(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				self.changed_pos[v] = pos2
+				if v in g2._vdata:
+					self.changed_vdata[v] = copy.deepcopy(g2._vdata[v])
 
 		for e in new_edges:
 			if e in old_edges:
@@ -106,7 +108,7 @@ class GraphDiff(Generic[VT, ET]):
 			if v in self.changed_phases:
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
-				g._vdata[v] = self.changed_vdata[v]
+				g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
 		for st, ty in self.new_edges:
 			g.add_edge(st,ty)
 
@@ -124,7 +126,7 @@ class GraphDiff(Generic[VT, ET]):
 
 		for v in self.changed_vdata:
 			if v in self.new_verts: continue
-			g._vdata[v] = self.changed_vdata[v]
+			g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
 
 		for e in self.changed_edge_types:
 			g.set_edge_type(e,self.changed_edge_types[e])
-- 
2.43.0


From 1c410ea62f309aa086db4febbd6d5955f9044270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 58/92] fix: saved diagram differences keep phases, variable
 types and the edges of multigraphs exactly

---
 pyzx/graph/diff.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 71dc661..d6f9baa 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -19,10 +19,10 @@ import json
 from collections import Counter
 from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 
-from ..utils import VertexType, EdgeType, FractionLike, FloatInt, phase_to_s
+from ..utils import VertexType, EdgeType, FractionLike, FloatInt
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
-from .jsonparser import ComplexDecoder, ComplexEncoder, string_to_phase
+from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_json, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
 	removed_verts: List[VT]
@@ -136,8 +136,8 @@ class GraphDiff(Generic[VT, ET]):
 	def to_json(self) -> str:
 		changed_edge_types_str_dict = {}
 		for key, value in self.changed_edge_types.items():
-			changed_edge_types_str_dict[f"{key[0]},{key[1]}"] = value # type: ignore
-		changed_phases_str = {k: phase_to_s(v) for k, v in self.changed_phases.items()}
+			changed_edge_types_str_dict[",".join(str(int(i)) for i in key)] = value # type: ignore
+		changed_phases_str = {k: phase_to_json(v) for k, v in self.changed_phases.items()}
 		return json.dumps({
 			"removed_verts": self.removed_verts,
 			"new_verts": self.new_verts,
@@ -155,6 +155,7 @@ class GraphDiff(Generic[VT, ET]):
 	def from_json(json_str: str) -> "GraphDiff":
 		d = json.loads(json_str, cls=ComplexDecoder)
 		gd = GraphDiff(GraphS(),GraphS())
+		gd.variable_types = d.get("variable_types", {})
 		gd.removed_verts = d["removed_verts"]
 		gd.new_verts = d["new_verts"]
 		gd.removed_edges = list(map(tuple, d["removed_edges"])) # type: ignore
-- 
2.43.0


From f5d8e19b9b25910840235d278ce824ca8f3ac95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:59 +0000
Subject: [PATCH 59/92] fix: diagram differences with fractional Z-box labels
 can be saved

---
 pyzx/graph/diff.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index d6f9baa..eb167d7 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -16,7 +16,9 @@
 
 import copy
 import json
+import re
 from collections import Counter
+from fractions import Fraction
 from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 
 from ..utils import VertexType, EdgeType, FractionLike, FloatInt
@@ -147,7 +149,7 @@ class GraphDiff(Generic[VT, ET]):
 			"changed_edge_types": changed_edge_types_str_dict,
 			"changed_phases": changed_phases_str,
 			"changed_pos": self.changed_pos,
-			"changed_vdata": self.changed_vdata,
+			"changed_vdata": {v: {k: fraction_to_json(x) for k, x in data.items()} for v, data in self.changed_vdata.items()},
 			"variable_types": self.variable_types
 		},  cls=ComplexEncoder)
 
@@ -164,8 +166,19 @@ class GraphDiff(Generic[VT, ET]):
 		gd.changed_edge_types = map_dict_keys(d["changed_edge_types"], lambda x: tuple(map(int, x.split(","))))
 		gd.changed_phases = {int(k): string_to_phase(v,gd) for k, v in d["changed_phases"].items()}
 		gd.changed_pos = map_dict_keys(d["changed_pos"], int)
-		gd.changed_vdata = map_dict_keys(d["changed_vdata"], int)
+		gd.changed_vdata = {int(v): {k: fraction_from_json(x) for k, x in data.items()} for v, data in d["changed_vdata"].items()}
 		return gd
 
+def fraction_to_json(x: Any) -> Any:
+	"""Vertex data can contain fractions (as the label of a Z-box), which json does not have."""
+	if isinstance(x, Fraction): return "{}\u03c0/{}".format(x.numerator, x.denominator)
+	return x
+
+def fraction_from_json(x: Any) -> Any:
+	if isinstance(x, str):
+		m = re.fullmatch("(-?[0-9]+)\u03c0/([0-9]+)", x)
+		if m: return Fraction(int(m.group(1)), int(m.group(2)))
+	return x
+
 def map_dict_keys(d: Dict[str, Any], f: Callable[[str], Any]) -> Dict[Any, Any]:
 	return {f(k): v for k, v in d.items()}
-- 
2.43.0


From a7c8d794f898ffdb16c818dfa0710db1bbf32dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:13 +0000
Subject: [PATCH 60/92] fix: colour change leaves the self-loops of multigraphs
 alone

---
 pyzx/basicrules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 18eebc0..e17dbde 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -74,6 +74,8 @@ def color_change(g: BaseGraph[VT,ET], v: VT) -> bool:
 
     g.set_type(v, toggle_vertex(g.type(v)))
     for e in g.incident_edges(v):
+        source, target = g.edge_st(e)
+        if source == target: continue # the Hadamards on both ends of a self-loop cancel
         g.set_edge_type(e, toggle_edge(g.edge_type(e)))
 
     return True
-- 
2.43.0


From b1e0ac9802440dd9cb9003c218787db335aafe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:13 +0000
Subject: [PATCH 61/92] fix: strong complementarity handles parallel edges and
 rejects self-loops

---
 pyzx/basicrules.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index e17dbde..902b688 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -86,9 +86,10 @@ def check_strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
             is_pauli(g.phase(v1)) and
             is_pauli(g.phase(v2)) and
             g.connected(v1,v2) and
-            g.edge_type(g.edge(v1,v2)) == EdgeType.SIMPLE):
+            not g.connected(v1,v1) and
+            not g.connected(v2,v2)):
         return False
-    return True
+    return [g.edge_type(e) for e in g.edges(v1,v2)] == [EdgeType.SIMPLE]
 
 def strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
     if not check_strong_comp(g, v1, v2): return False
@@ -98,12 +99,14 @@ def strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
 
     for i in range(2):
         j = (i + 1) % 2
-        for vn in g.neighbors(v[i]):
+        for e in g.incident_edges(v[i]):
+            source, target = g.edge_st(e)
+            vn = target if source == v[i] else source
             if vn != v[j]:
                 q = 0.4*g.qubit(vn) + 0.6*g.qubit(v[i])
                 r = 0.4*g.row(vn) + 0.6*g.row(v[i])
                 newv = g.add_vertex(g.type(v[j]), qubit=q, row=r)
-                g.add_edge((newv,vn), edgetype=g.edge_type(g.edge(v[i],vn)))
+                g.add_edge((newv,vn), edgetype=g.edge_type(e))
                 g.set_phase(newv, g.phase(v[j]))
                 nhd[i].append(newv)
 
-- 
2.43.0


From ce258d63aeba866fe8f880f4ccf94683ae68a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:13 +0000
Subject: [PATCH 62/92] fix: pi-commutation inserts pi nodes and updates the
 scalar

---
 pyzx/basicrules.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 902b688..3709873 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -146,19 +146,24 @@ def check_pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
 
 def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
     if not check_pi_commute_Z(g, v): return False
+    g.scalar.add_phase(g.phase(v))
     g.set_phase(v, -g.phase(v))
-    ns = g.neighbors(v)
-    for w in ns:
-        e = g.edge(v, w)
+    for e in list(g.incident_edges(v)):
+        source, target = g.edge_st(e)
+        w = target if source == v else source
         et = g.edge_type(e)
-        if ((g.type(w) == VertexType.Z and et == EdgeType.HADAMARD) or
+        if w == v:
+            if et == EdgeType.HADAMARD:
+                g.scalar.add_phase(1)
+        elif ((g.type(w) == VertexType.Z and et == EdgeType.HADAMARD) or
             (g.type(w) == VertexType.X and et == EdgeType.SIMPLE)):
             g.add_to_phase(w, 1)
         else:
             g.remove_edge(e)
             c = g.add_vertex(VertexType.X,
                     qubit=0.5*(g.qubit(v) + g.qubit(w)),
-                    row=0.5*(g.row(v) + g.row(w)))
+                    row=0.5*(g.row(v) + g.row(w)),
+                    phase=1)
             g.add_edge((v, c))
             g.add_edge((c, w), edgetype=et)
     return True
-- 
2.43.0


From b72a285f5bc895db609545e8fe9d854c1ded56e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:13 +0000
Subject: [PATCH 63/92] fix: copy rule works through nodes with any phase

---
 pyzx/basicrules.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 3709873..2d23a14 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -130,6 +130,7 @@ def check_copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
         return False
     nv = next(iter(g.neighbors(v)))
     if not (g.type(nv) == VertexType.Z and
+            not g.connected(nv,nv) and
             g.edge_type(g.edge(v,nv)) == EdgeType.SIMPLE):
         return False
     return True
@@ -137,6 +138,10 @@ def check_copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
 def copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
     if not check_copy_X(g, v): return False
     nv = next(iter(g.neighbors(v)))
+    if not is_pauli(g.phase(nv)): # the phase of nv only contributes a global phase
+        if g.phase(v) == 1:
+            g.scalar.add_phase(g.phase(nv))
+        g.set_phase(nv, 0)
     strong_comp(g, v, nv)
 
     return True
-- 
2.43.0


From a4ba119094dd6ef895fc25b3de0fdfff9b2e7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:13 +0000
Subject: [PATCH 64/92] fix: identity removal only removes Z, X and Z-box nodes
 without self-loops

---
 pyzx/basicrules.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 2d23a14..6f4633a 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -49,7 +49,7 @@ from typing import Tuple, List
 from .graph.base import BaseGraph, VT, ET
 from .rules import apply_rule, w_fusion, z_to_z_box
 from .utils import (EdgeType, VertexType, get_w_io, get_z_box_label, is_pauli,
-                    set_z_box_label, vertex_is_w, vertex_is_z_like, toggle_vertex, toggle_edge)
+                    set_z_box_label, vertex_is_w, vertex_is_z_like, vertex_is_zx_like, toggle_vertex, toggle_edge)
 
 def color_change_diagram(g: BaseGraph[VT,ET]):
     """Color-change an entire diagram by applying Hadamards to the inputs and ouputs."""
@@ -254,7 +254,9 @@ def fuse_w(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
     return True
 
 def check_remove_id(g: BaseGraph[VT,ET], v: VT) -> bool:
-    if not g.vertex_degree(v) == 2:
+    if not g.vertex_degree(v) == 2 or g.connected(v, v):
+        return False
+    if not vertex_is_zx_like(g.type(v)):
         return False
     if g.type(v) == VertexType.Z_BOX and get_z_box_label(g, v) == 1:
         return True
@@ -266,9 +268,10 @@ def remove_id(g: BaseGraph[VT,ET], v: VT) -> bool:
     if not check_remove_id(g, v):
         return False
 
-    v1, v2 = tuple(g.neighbors(v))
+    e1, e2 = tuple(g.incident_edges(v))
+    v1, v2 = [t if s == v else s for s, t in (g.edge_st(e1), g.edge_st(e2))]
     g.add_edge((v1,v2), edgetype=EdgeType.SIMPLE
-            if g.edge_type(g.edge(v,v1)) == g.edge_type(g.edge(v,v2))
+            if g.edge_type(e1) == g.edge_type(e2)
             else EdgeType.HADAMARD)
     g.remove_vertex(v)
 
-- 
2.43.0


From 017f7445f2325ebb440bd1632530a0f1fccc2994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:35 +0000
Subject: [PATCH 65/92] fix: Steiner elimination fills and clears the tree of a
 full reduction

---
 pyzx/routing/steiner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 4e28321..00b2481 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -68,6 +68,7 @@ def steiner_gauss(
                     row_add(s1, s0)
                     if debug:
                         print(matrix[s0, col], matrix[s1, col])
+        else:
             if (
                 next_check is not None and matrix[next_check[0], col] == 0
             ):  # root is zero
-- 
2.43.0


From 9049ed613b9e37c51581729ca66cd6acb6e2fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:35 +0000
Subject: [PATCH 66/92] fix: Steiner trees follow the qubit placement and the
 direction of their edges

---
 pyzx/routing/architecture.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 28fbfce..860bd6c 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -129,8 +129,8 @@ class Architecture():
             until indicates the number of qubits to consider, for "full" the distance is calculated only between qubits with index <= until),
             and for "upper" the distance is calculated only between qubits with index >= until)
         """
-        return {"upper": [self.floyd_warshall(self.vertices[until:], upper=True) for until, v in enumerate(self.vertices)],
-                "full": [self.floyd_warshall(self.vertices[:until+1], upper=False) for until, v in enumerate(self.vertices)]}
+        return {"upper": [self.floyd_warshall(self.qubit_map[until:], upper=True) for until, v in enumerate(self.qubit_map)],
+                "full": [self.floyd_warshall(self.qubit_map[:until+1], upper=False) for until, v in enumerate(self.qubit_map)]}
 
     def _get_reduce_order(self) -> List[int]:
         vertices = list(sorted(self.vertices, reverse=True, key=self.vertex2qubit)) # sort qubits from large to small
@@ -364,14 +364,14 @@ class Architecture():
         target_nodes = set(self.qubit2vertex(q) for q in qubits_to_use)
 
         # Check that all nodes are valid and that there are no duplicates
-        assert all(n >= root if upper else n <= root for n in target_nodes)
+        assert all(q >= start_qubit if upper else q <= start_qubit for q in qubits_to_use)
         assert len(qubits_to_use) == len(set(qubits_to_use))
         
         # The vertices and edges of the generated tree
         tree_vertices: Set[int] = {root}
         edges: Set[Tuple[int,int]] = set()
         # Map with all distances between nodes with index <= root (if not upper) or index >= root (if upper), and the corresponding shortest paths
-        distances: Dict[Tuple[int,int], Tuple[int,List[Tuple[int,int]]]] = self.distances["upper"][root] if upper else self.distances["full"][root]
+        distances: Dict[Tuple[int,int], Tuple[int,List[Tuple[int,int]]]] = self.distances["upper"][start_qubit] if upper else self.distances["full"][start_qubit]
         # Nodes that are not yet in the tree
         remaining_nodes = set(n for n in target_nodes if n != root)
         # Non-target nodes added to the tree
@@ -410,7 +410,7 @@ class Architecture():
         
         while queue != []:
             node = queue.pop(0)
-            neighbors = [v for v in self.graph.neighbors(node) if v in tree_vertices and v not in visited]
+            neighbors = [v for v in self.graph.neighbors(node) if (node, v) in edges and v not in visited]
 
             for v in neighbors:
                 queue.append(v)
-- 
2.43.0


From 09f945a6462f2229b4aff026eb8701393916b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:35 +0000
Subject: [PATCH 67/92] fix: recursive Steiner elimination only uses remaining
 qubits

---
 pyzx/routing/architecture.py | 34 ++++++++++++++++++++++++++++++++++
 pyzx/routing/steiner.py      | 16 +++++++++-------
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 860bd6c..490cd88 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -133,6 +133,40 @@ class Architecture():
                 "full": [self.floyd_warshall(self.qubit_map[:until+1], upper=False) for until, v in enumerate(self.qubit_map)]}
 
     def _get_reduce_order(self) -> List[int]:
+        for leaves_of_tree in (False, True):
+            reduce_order = self._leaf_order(leaves_of_tree)
+            if self._is_valid_reduce_order(reduce_order):
+                break
+        return reduce_order
+
+    def _is_valid_reduce_order(self, reduce_order: List[int]) -> bool:
+        """Checks that for every qubit the remaining larger qubits are an ascending path
+        that starts in it, from which all the remaining qubits can be reached over
+        descending edges, as the reduction of the qubit requires."""
+        for i, qubit in enumerate(reduce_order):
+            remaining = set(reduce_order[i:])
+            path = sorted(q for q in remaining if q >= qubit)
+            if any(q2 not in self.get_neighboring_qubits(q1) for q1, q2 in zip(path, path[1:])):
+                return False
+            queue, reached = list(path), set(path)
+            while queue:
+                q1 = queue.pop()
+                new = [q2 for q2 in self.get_neighboring_qubits(q1) if q2 in remaining and q2 < q1 and q2 not in reached]
+                reached.update(new)
+                queue.extend(new)
+            if reached != remaining:
+                return False
+        return True
+
+    def _leaf_order(self, leaves_of_tree: bool) -> List[int]:
+        if leaves_of_tree: # Only consider the edges from every qubit to the next larger qubit it is connected to.
+            n = len(self.vertices)
+            parents = {q: min((p for p in self.get_neighboring_qubits(q) if p > q), default=-1) for q in range(n)}
+            order: List[int] = []
+            while parents:
+                order.append(max(q for q in parents if q not in parents.values()))
+                del parents[order[-1]]
+            return order
         vertices = list(sorted(self.vertices, reverse=True, key=self.vertex2qubit)) # sort qubits from large to small
         # Pick leaf with largest label every time.
         reduce_order = []
diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 00b2481..3f24199 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -244,15 +244,17 @@ def rec_steiner_gauss(
 
                 # Pick the maximal vertex k in R: k = max(usable_nodes)
                 # Pick the maximal leaf k' in R: k' = cols[i] = c
-                # Let W be the set of vertices in the shortest path from k' to k (inclusive)
-                path = architecture.shortest_path(
-                    c, max(usable_nodes)
-                )  # , usable_nodes)
-                if path is None:
+                # Let W be the set of vertices in the ascending path from k' to k (inclusive).
+                # It contains all vertices of R above k', so that only the submatrix on W
+                # can stop being upper triangular.
+                rec_qubits = sorted(q for q in usable_nodes if q >= c)
+                if any(
+                    q2 not in architecture.get_neighboring_qubits(q1)
+                    for q1, q2 in zip(rec_qubits, rec_qubits[1:])
+                ):
                     raise ValueError(
-                        f"The architecture is not connected using when considering nodes 0..{max(usable_nodes)}"
+                        f"The qubits {rec_qubits} are not a path in the architecture"
                     )
-                rec_qubits = [architecture.vertex2qubit(v) for v in path]
 
                 # Apply steiner up:
                 # Pick the nodes of the steiner tree: all rows with a 1 in column c or the pivot row (diagonal)
-- 
2.43.0


From 5c9fad4115f660ba14e680b6ac154153e1d5eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:51 +0000
Subject: [PATCH 68/92] fix: genetic permutation search accepts a single qubit

---
 pyzx/routing/machine_learning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/routing/machine_learning.py b/pyzx/routing/machine_learning.py
index 87c24bb..89d01c7 100644
--- a/pyzx/routing/machine_learning.py
+++ b/pyzx/routing/machine_learning.py
@@ -121,7 +121,7 @@ class GeneticAlgorithm:
         self._add_children(children)
 
     def _crossover(self, parent1, parent2):
-        crossover_start = np.random.choice(int(self.n_qubits / 2))
+        crossover_start = np.random.choice(max(1, int(self.n_qubits / 2)))
         crossover_length = np.random.choice(self.n_qubits - crossover_start)
         crossover_end = crossover_start + crossover_length
         child = -1 * np.ones_like(parent1)
@@ -136,6 +136,8 @@ class GeneticAlgorithm:
         return child
 
     def _mutate(self, parent):
+        if len(parent) < 2:
+            return parent
         gen1, gen2 = np.random.choice(len(parent), size=2, replace=False)
         _ = parent[gen1]
         parent[gen1] = parent[gen2]
-- 
2.43.0


From f0bf11b67647cabc61be78f8819d2df380649b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:51 +0000
Subject: [PATCH 69/92] fix: CNOT_tracker tracks CNOTs added by name

---
 pyzx/routing/parity_maps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index f14c885..6632cab 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -65,12 +65,14 @@ class CNOT_tracker(Circuit):
 
     def row_add(self, q0: int, q1: int):
         """Track a row addition operation on the matrix"""
-        self.add_gate("CNOT", q0, q1)
+        super().add_gate("CNOT", q0, q1)
         self.matrix.row_add(q0, q1)
 
     def add_gate(self, gate: Union[Gate,str], *args, **kwargs):
         if isinstance(gate, CNOT):
             self.row_add(gate.control, gate.target)
+        elif gate == "CNOT":
+            self.add_gate(CNOT(*args, **kwargs))
         else:
             super().add_gate(gate, *args, **kwargs)
 
-- 
2.43.0


From cc8b9a80e7e66b68ec815a488370797162afe593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:07 +0000
Subject: [PATCH 70/92] fix: phase polynomials over T gates reject other phases

---
 pyzx/todd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/todd.py b/pyzx/todd.py
index f8742f6..c4cbd02 100644
--- a/pyzx/todd.py
+++ b/pyzx/todd.py
@@ -188,7 +188,9 @@ def phase_gates_to_poly(gates: List[Gate], qubits: int) -> Tuple[ParityPolynomia
             g_phase = g.phase
             if isinstance(g_phase, Poly):
                 raise NotImplementedError("Symbolic phases not supported")
-            phase_poly.add_term(par, int(float(g_phase*4)))
+            if g_phase*4 % 1 != 0:
+                raise ValueError("Phase {!s} is not a multiple of pi/4".format(g_phase))
+            phase_poly.add_term(par, int(g_phase*4))
         elif isinstance(g, CZ):
             tgt, ctrl = g.target, g.control
             par1 = expression_polys[tgt].par
-- 
2.43.0


From 5c1dec39ede6cdfc6fc4df3e00f423f8b1e8791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:21 +0000
Subject: [PATCH 71/92] fix: particle swarm steps from a permutation given as a
 list

---
 pyzx/routing/machine_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/machine_learning.py b/pyzx/routing/machine_learning.py
index 89d01c7..3e951b6 100644
--- a/pyzx/routing/machine_learning.py
+++ b/pyzx/routing/machine_learning.py
@@ -307,7 +307,7 @@ class Particle:
                     "The new particle point is not a permutation anymore!"
                     + str(self.current)
                 )
-        self.current = new
+        self.current = np.array(new)
         return is_better
 
     def _mutate(self, particle):
-- 
2.43.0


From 1e4f258c0972501348f57b913acdb4590f3f17ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:17 +0000
Subject: [PATCH 72/92] fix: circuits on different numbers of qubits are not
 equal

---
 pyzx/circuit/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 518c404..c3f9d37 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -88,6 +88,9 @@ class Circuit(object):
             # TODO once full_gnd_reduce is merged
             raise NotImplementedError("The equality verification does not support hybrid circuits.")
 
+        if self.qubits != other.qubits:
+            return False
+
         from ..simplify import full_reduce
         c = self.adjoint()
         c.add_circuit(other)
-- 
2.43.0


From cba080aa148d76f30736cf0dd18e76b2deb4a8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 73/92] fix: tensor comparison checks shapes and uses
 tolerances relative to the entries

---
 pyzx/tensor.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 1e931fc..6a6ab21 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -220,16 +220,19 @@ def compare_tensors(t1: TensorConvertible,t2: TensorConvertible, preserve_scalar
         t1 = t1.to_tensor(preserve_scalar)
     if not isinstance(t2, np.ndarray):
         t2 = t2.to_tensor(preserve_scalar)
-    if np.allclose(t1,t2): return True
-    if preserve_scalar: return False # We do not check for equality up to scalar
+    if t1.shape != t2.shape: return False
+    # The entries are compared relative to the largest ones
     epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return False
-            break
-    else:
-        raise ValueError("Tensor is too close to zero")
-    return np.allclose(t1/a,t2/t2.flat[i])
+    max1 = float(np.abs(t1).max()) if t1.size else 0.0
+    max2 = float(np.abs(t2).max()) if t2.size else 0.0
+    atol = max(epsilon, 10**-8*max(max1,max2))
+    if np.allclose(t1,t2,atol=atol): return True
+    if preserve_scalar: return False # We do not check for equality up to scalar
+    if max1 < epsilon or max2 < epsilon:
+        return max1 < epsilon and max2 < epsilon
+    i = int(np.argmax(np.abs(t1)))
+    if abs(t2.flat[i]) < 10**-8*max2: return False
+    return np.allclose(t1/t1.flat[i],t2/t2.flat[i])
 
 def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> complex:
     """Returns the complex number ``z`` such that ``t1 = z*t2``.
@@ -245,13 +248,9 @@ def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> compl
     if not isinstance(t2, np.ndarray):
         t2 = t2.to_tensor(preserve_scalar=True)
 
-    epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return 0
-            return a/t2.flat[i]
-
-    return 0
+    i = int(np.argmax(np.abs(t2)))
+    if abs(t2.flat[i]) < 10**-14: return 0
+    return t1.flat[i]/t2.flat[i]
 
 
 def compose_tensors(t1: np.ndarray, t2: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 159d519423d3aab2e2c0f5b4d6865866eaf225f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:54 +0000
Subject: [PATCH 74/92] fix: tensor evaluation contracts every edge, whatever
 the layout

---
 pyzx/tensor.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 6a6ab21..64b9545 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -103,7 +103,7 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
     Beware that quantum circuits take exponential memory to represent."""
     if g.is_hybrid():
         raise ValueError("Hybrid graphs are not supported.")
-    rows = g.rows()
+    rows = {v: g.row(v) for v in g.vertices()}
     phases = g.phases()
     types = g.types()
     depth = g.depth()
@@ -129,10 +129,19 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
     for i, v in enumerate(inputs):
         indices[v] = [1 + 2*i]
 
+    for i, v in enumerate(inputs): # wires between two inputs
+        for w in inputs[i+1:]:
+            for e in g.edges(v, w):
+                a, b = pop_and_shift([v, w], indices)
+                if g.edge_type(e) == EdgeType.HADAMARD:
+                    tensor = np.moveaxis(np.tensordot(tensor,had,(a,0)),-1,a)
+                tensor = np.trace(tensor,axis1=a,axis2=b)
+
     for i,r in enumerate(sorted(verts_row.keys())):
         for v in sorted(verts_row[r]):
-            neigh = list(g.neighbors(v))
-            d = len(neigh)
+            neigh = [(n, g.edge_type(e)) for n in g.neighbors(v) for e in g.edges(v, n)]
+            loops = [et for n, et in neigh if n == v]
+            d = len(neigh) + len(loops)
             if v in inputs:
                 if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for input:", v, types[v])
                 continue # inputs already taken care of
@@ -161,12 +170,20 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                     t = Z_box_to_tensor(d, label)
                 else:
                     raise ValueError("Vertex %s has non-ZXH type but is not an input or output" % str(v))
-            nn = list(filter(lambda n: rows[n]<r or (rows[n]==r and n<v), neigh)) # TODO: allow ordering on vertex indices?
-            ety = {n:g.edge_type(g.edge(v,n)) for n in nn}
-            nn.sort(key=lambda n: ety[n])
-            for n in nn:
-                if ety[n] == EdgeType.HADAMARD:
-                    t = np.tensordot(t,had,(0,0)) # Hadamard edges are moved to the last index of t
+            for et in loops:
+                if et == EdgeType.HADAMARD:
+                    t = np.tensordot(t,had,(0,0))
+                t = np.trace(t,axis1=0,axis2=-1)
+                d -= 2
+            nn = [] # the neighbors that are already part of the tensor
+            hads = []
+            for n, et in neigh:
+                if n == v or n not in indices: continue
+                if et == EdgeType.HADAMARD: hads.append(n)
+                else: nn.append(n)
+            for n in hads:
+                t = np.tensordot(t,had,(0,0)) # Hadamard edges are moved to the last index of t
+            nn.extend(hads)
             contr = pop_and_shift(nn,indices) #the last indices in contr correspond to hadamard contractions
             tensor = np.tensordot(tensor,t,axes=(contr,list(range(len(t.shape)-len(contr),len(t.shape)))))
             indices[v] = list(range(len(tensor.shape)-d+len(contr), len(tensor.shape)))
-- 
2.43.0


From 047d220e46c9b1f3c1366bce02afa09f6929d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 75/92] fix: tensor of an X spider without legs is a number

---
 pyzx/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 64b9545..cf38ac2 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -61,7 +61,7 @@ def X_to_tensor(arity: int, phase: float) -> np.ndarray:
     m = np.ones(2**arity, dtype = complex)
     if arity == 0:
         m[()] = 1 + np.exp(1j*phase)
-        return m
+        return m.reshape([])
     for i in range(2**arity):
         if bin(i).count("1")%2 == 0:
             m[i] += np.exp(1j*phase)
-- 
2.43.0


From 54791df5b3f605ef5535cd3a384556e1f6b453ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 76/92] fix: Hadamard gates are H-boxes between two different
 nodes

---
 pyzx/hrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 13d36f4..1b47c4e 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -34,6 +34,7 @@ def match_hadamards(g: BaseGraph[VT,ET],
     taken: Set[VT] = set()
     for v in candidates:
         if ty[v] == VertexType.H_BOX and g.vertex_degree(v) == 2 and g.phase(v) == 1:
+            if len(g.neighbors(v)) != 2: continue # a double edge or a self-loop
             n1,n2 = g.neighbors(v)
             if n1 in taken or n2 in taken: continue
             if n1 not in m and n2 not in m: 
-- 
2.43.0


From 8f6d417cebde9ef08a069ef73ccb81077b635601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:04 +0000
Subject: [PATCH 77/92] fix: fused pairs of H-boxes are not adjacent to each
 other

---
 pyzx/hrules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 1b47c4e..028a10b 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -75,9 +75,11 @@ def match_connected_hboxes(g: BaseGraph[VT,ET],
         v1,v2 = g.edge_st(e)
         if ty[v1] != VertexType.H_BOX or ty[v2] != VertexType.H_BOX: continue
         if g.phase(v1) != 1 and g.phase(v2) != 1: continue
+        if any(g.vertex_degree(v) != len(g.neighbors(v)) for v in (v1,v2)): continue # parallel edges or self-loops
         m.add(e)
-        candidates.difference_update(g.incident_edges(v1))
-        candidates.difference_update(g.incident_edges(v2))
+        for v in (v1,v2):
+            for n in g.neighbors(v): # matches should not touch each other
+                candidates.difference_update(g.incident_edges(n))
     return list(m)
 
 def fuse_hboxes(g: BaseGraph[VT,ET], matches: List[ET]) -> rules.RewriteOutputType[VT,ET]:
-- 
2.43.0


From 6f90959ee046582fa499281c05eef1e4f0e76f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 78/92] fix: H-boxes with a parallel NOT are joined to a white
 spider by a plain wire

---
 pyzx/hrules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 028a10b..491ac1f 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -233,11 +233,13 @@ def match_hbox_parallel_not(
     while len(candidates) > 0:
         h = candidates.pop()
         if types[h] != VertexType.H_BOX or phases[h] != 1: continue
+        if g.vertex_degree(h) != len(g.neighbors(h)): continue # parallel edges or self-loops
 
         for n in g.neighbors(h):
-            if g.vertex_degree(n) != 2 or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
+            if g.vertex_degree(n) != 2 or len(g.neighbors(n)) != 2 or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
             v = [v for v in g.neighbors(n) if v != h][0] # The other neighbor of n
-            if not g.connected(v,h): continue
+            if types[v] != VertexType.Z or not g.connected(v,h): continue
+            if g.edge_type(g.edge(v,h)) != EdgeType.SIMPLE: continue
             if not is_NOT_gate(g,n,h,v):
                 continue
             break
-- 
2.43.0


From 4efa01d0ada222c59e0becc3bcdf02294064a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:20 +0000
Subject: [PATCH 79/92] fix: H-boxes with zero phase are only matched next to
 white spiders

---
 pyzx/hrules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 491ac1f..3ddd66b 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -436,10 +436,12 @@ def par_hbox_intro(g: BaseGraph[VT,ET], matches: List[TYPE_MATCH_PAR_HBOX_INTRO]
 
 
 def match_zero_hbox(g: BaseGraph[VT,ET]) -> List[VT]:
-    """Matches H-boxes that have a phase of 2pi==0."""
+    """Matches H-boxes that have a phase of 2pi==0 and are only connected to white spiders."""
     types = g.types()
     phases = g.phases()
-    return [v for v in g.vertices() if types[v] == VertexType.H_BOX and phases[v] == 0]
+    return [v for v in g.vertices() if types[v] == VertexType.H_BOX and phases[v] == 0
+            and all(types[w] == VertexType.Z for w in g.neighbors(v))
+            and all(g.edge_type(e) == EdgeType.SIMPLE for e in g.incident_edges(v))]
 
 def zero_hbox(g: BaseGraph[VT,ET], m: List[VT]) -> None:
     """Removes H-boxes with a phase of 2pi=0.
-- 
2.43.0


From 520ebaa5676b60f401c401a3472c39061f1e6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:27 +0000
Subject: [PATCH 80/92] fix: phases of H-boxes are only added to spiders joined
 by a plain wire

---
 pyzx/hsimplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hsimplify.py b/pyzx/hsimplify.py
index f20e572..a049b99 100644
--- a/pyzx/hsimplify.py
+++ b/pyzx/hsimplify.py
@@ -118,7 +118,7 @@ def from_hypergraph_form(g: BaseGraph[VT,ET]) -> None:
     for h in hs:
         if g.vertex_degree(h) == 1:
             n = next(iter(g.neighbors(h)))
-            if types[n] == VertexType.Z:
+            if types[n] == VertexType.Z and g.edge_type(g.edge(h,n)) == EdgeType.SIMPLE:
                 g.set_phase(n, phases[n] + phases[h])
                 g.remove_vertex(h)
     hadamard_simp(g,quiet=True)
-- 
2.43.0


From ee7fda5d9b9402194358b6af861ee816bd18e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 81/92] fix: rules for H-boxes leave parallel edges and
 self-loops of multigraphs alone

---
 pyzx/hrules.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 3ddd66b..3c8f85d 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -23,6 +23,10 @@ from .graph.base import BaseGraph, ET, VT, upair
 from . import rules
 
 
+def has_parallel_edges(g: BaseGraph[VT,ET], v: VT) -> bool:
+    """Returns whether v has parallel edges or self-loops, which only occur in multigraphs."""
+    return v in g.neighbors(v) or g.vertex_degree(v) != len(g.neighbors(v))
+
 def match_hadamards(g: BaseGraph[VT,ET],
         vertexf: Optional[Callable[[VT],bool]] = None
         ) -> List[VT]:
@@ -33,8 +37,8 @@ def match_hadamards(g: BaseGraph[VT,ET],
     ty = g.types()
     taken: Set[VT] = set()
     for v in candidates:
-        if ty[v] == VertexType.H_BOX and g.vertex_degree(v) == 2 and g.phase(v) == 1:
-            if len(g.neighbors(v)) != 2: continue # a double edge or a self-loop
+        if ty[v] == VertexType.H_BOX and g.vertex_degree(v) == 2 and not has_parallel_edges(g,v) and g.phase(v) == 1:
+            if has_parallel_edges(g,v): continue
             n1,n2 = g.neighbors(v)
             if n1 in taken or n2 in taken: continue
             if n1 not in m and n2 not in m: 
@@ -75,7 +79,7 @@ def match_connected_hboxes(g: BaseGraph[VT,ET],
         v1,v2 = g.edge_st(e)
         if ty[v1] != VertexType.H_BOX or ty[v2] != VertexType.H_BOX: continue
         if g.phase(v1) != 1 and g.phase(v2) != 1: continue
-        if any(g.vertex_degree(v) != len(g.neighbors(v)) for v in (v1,v2)): continue # parallel edges or self-loops
+        if has_parallel_edges(g,v1) or has_parallel_edges(g,v2): continue
         m.add(e)
         for v in (v1,v2):
             for n in g.neighbors(v): # matches should not touch each other
@@ -233,10 +237,10 @@ def match_hbox_parallel_not(
     while len(candidates) > 0:
         h = candidates.pop()
         if types[h] != VertexType.H_BOX or phases[h] != 1: continue
-        if g.vertex_degree(h) != len(g.neighbors(h)): continue # parallel edges or self-loops
+        if has_parallel_edges(g,h): continue
 
         for n in g.neighbors(h):
-            if g.vertex_degree(n) != 2 or len(g.neighbors(n)) != 2 or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
+            if g.vertex_degree(n) != 2 or has_parallel_edges(g,n) or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
             v = [v for v in g.neighbors(n) if v != h][0] # The other neighbor of n
             if types[v] != VertexType.Z or not g.connected(v,h): continue
             if g.edge_type(g.edge(v,h)) != EdgeType.SIMPLE: continue
@@ -288,6 +292,7 @@ def match_par_hbox(
     ty = g.types()
     for h in candidates:
         if ty[h] != VertexType.H_BOX: continue
+        if has_parallel_edges(g,h): continue
         suitable = True
         neighbors_regular = set()
         neighbors_NOT = set()
@@ -297,7 +302,7 @@ def match_par_hbox(
             if g.edge_type(e) == EdgeType.HADAMARD:
                 if ty[v] == VertexType.X:
                     neighbors_regular.add(v)
-                elif ty[v] == VertexType.Z and g.vertex_degree(v) == 2 and g.phase(v) == 1:
+                elif ty[v] == VertexType.Z and g.vertex_degree(v) == 2 and not has_parallel_edges(g,v) and g.phase(v) == 1:
                     w = [w for w in g.neighbors(v) if w!=h][0] # unique other neighbor
                     if ty[w] != VertexType.Z or g.edge_type(g.edge(v,w)) != EdgeType.HADAMARD:
                         suitable = False
@@ -310,7 +315,7 @@ def match_par_hbox(
             else: # e == EdgeType.SIMPLE
                 if ty[v] == VertexType.Z:
                     neighbors_regular.add(v)
-                elif ty[v] == VertexType.X and g.vertex_degree(v) == 2 and g.phase(v) == 1:
+                elif ty[v] == VertexType.X and g.vertex_degree(v) == 2 and not has_parallel_edges(g,v) and g.phase(v) == 1:
                     w = [w for w in g.neighbors(v) if w!=h][0] # unique other neighbor
                     if ty[w] != VertexType.Z or g.edge_type(g.edge(v,w)) != EdgeType.SIMPLE:
                         suitable = False
@@ -362,6 +367,7 @@ def match_par_hbox_intro(
     ty = g.types()
     for h in candidates:
         if ty[h] != VertexType.H_BOX: continue
+        if has_parallel_edges(g,h): continue
         suitable = True
         neighbors_regular = set()
         neighbors_NOT = set()
@@ -370,7 +376,7 @@ def match_par_hbox_intro(
         for v in g.neighbors(h):
             e = g.edge(v,h)
             if g.edge_type(e) == EdgeType.HADAMARD:
-                if ty[v] != VertexType.Z or g.vertex_degree(v) != 2 or g.phase(v) != 1: 
+                if ty[v] != VertexType.Z or g.vertex_degree(v) != 2 or has_parallel_edges(g,v) or g.phase(v) != 1: 
                     suitable = False
                     break
                 w = [w for w in g.neighbors(v) if w!=h][0]  # unique other neighbor
@@ -389,7 +395,7 @@ def match_par_hbox_intro(
                     else:
                         neighbors_regular.add(v)
                 else:
-                    if ty[v] != VertexType.X or g.vertex_degree(v) != 2 or g.phase(v) != 1:
+                    if ty[v] != VertexType.X or g.vertex_degree(v) != 2 or has_parallel_edges(g,v) or g.phase(v) != 1:
                         suitable = False
                         break
                     w = [w for w in g.neighbors(v) if w!=h][0]  # unique other neighbor
-- 
2.43.0


From 8aec5e2fcbd86a5a4405171b2d3ba9c450765bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:10 +0000
Subject: [PATCH 82/92] fix: the intro rule needs H-boxes joined just once to
 each white spider

---
 pyzx/hrules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 3c8f85d..93036d2 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -405,6 +405,8 @@ def match_par_hbox_intro(
                     neighbors_NOT.add(w)
                     NOTs.append(v)
         if not suitable: continue
+        # Every white spider should be connected just once
+        if len(NOTs) != len(neighbors_NOT) or neighbors_regular & neighbors_NOT: continue
         group = frozenset(neighbors_regular | neighbors_NOT)
         if group not in groupings: 
             groupings[group] = [(h,NOTs, neighbors_regular, neighbors_NOT, neighbors_single)]
-- 
2.43.0


From b9410f38486900b225aebef9a0beeaca736b4a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:30 +0000
Subject: [PATCH 83/92] fix: hyper-pivot needs white spiders and plain wires,
 and updates the scalar

---
 pyzx/hrules.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 93036d2..733b671 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -494,7 +494,9 @@ def match_hpivot(
             phases[h] == 1
         ): continue
 
+        if has_parallel_edges(g,h): continue
         v0, v1 = g.neighbors(h)
+        if any(types[v] != VertexType.Z or phases[v] != 0 or has_parallel_edges(g,v) for v in (v0,v1)): continue
 
         v0n = set(g.neighbors(v0))
         v1n = set(g.neighbors(v1))
@@ -530,7 +532,8 @@ def match_hpivot(
             all(all(types[v] == VertexType.Z for v in vs[1]) for vs in v1nn) and
             len(v0b) + len(v1b) <= 1 and
             len(v0b) + len(v0h) + 1 == len(v0n) and
-            len(v1b) + len(v1h) + 1 == len(v1n)
+            len(v1b) + len(v1h) + 1 == len(v1n) and
+            all(g.edge_type(e) == EdgeType.SIMPLE for v in [h] + v0h + v1h for e in g.incident_edges(v))
         ): continue
 
         degree = g.vertex_degree(v0) * g.vertex_degree(v1)
@@ -564,6 +567,7 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
     else:
         e = g.edge(v0, v0b[0])
         g.set_edge_type(e, toggle_edge(g.edge_type(e)))
+        g.scalar.add_power(-1) # The new H-box represents a Hadamard edge
         v0nn.append([v0])
     
     if len(v1b) == 0:
@@ -571,6 +575,7 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
     else:
         e = g.edge(v1, v1b[0])
         g.set_edge_type(e, toggle_edge(g.edge_type(e)))
+        g.scalar.add_power(-1)
         v1nn.append((Fraction(1,1), [v1]))
 
     for phase,ws in v1nn:
@@ -579,10 +584,11 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
             f_phase = (phase * phase_mult) % 2
             if f_phase == 0: continue
             for vvs in combinations(v0nn, weight):
-                us = tuple(sorted(sum(vvs, ws)))
+                us = tuple(sorted(set(sum(vvs, ws))))
 
-                # TODO: check if this is the right thing to do (and update scalar)
-                if len(us) == 0: continue
+                if len(us) == 0: # An H-box without legs is a scalar
+                    g.scalar.add_phase(f_phase)
+                    continue
 
                 # if us in hboxes:
                 #     h0 = hboxes[us]
-- 
2.43.0


From 1cfbbd28baada45cbe9ebca6c91f3f18054ac499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:53 +0000
Subject: [PATCH 84/92] fix: H-box copy rule leaves parallel edges of
 multigraphs alone

---
 pyzx/hrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 733b671..aa989e2 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -132,7 +132,7 @@ def match_copy(
         tv = types[v]
         if tv == VertexType.H_BOX: tv = VertexType.Z # v is arity 1, so we can treat it as a Z spider
         tw = types[w]
-        if tw == VertexType.BOUNDARY: continue
+        if tw == VertexType.BOUNDARY or has_parallel_edges(g,w): continue
         e = g.edge(v,w)
         et = g.edge_type(e)
         copy_type: VertexType = VertexType.Z
-- 
2.43.0


From cdae7e70de4b42951bb4f98cc5416607ada201ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:55 +0000
Subject: [PATCH 85/92] fix: path sums count spiders without a phase that are
 no axle

---
 pyzx/simulate.py | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/pyzx/simulate.py b/pyzx/simulate.py
index 0b4c295..87b3e46 100644
--- a/pyzx/simulate.py
+++ b/pyzx/simulate.py
@@ -24,7 +24,7 @@ import math
 sq2 = math.sqrt(2)
 omega = (1+1j)/sq2
 from fractions import Fraction
-from typing import List, Optional, Dict, Tuple, Any
+from typing import List, Optional, Dict, FrozenSet, Tuple, Any
 
 import numpy as np
 
@@ -228,34 +228,31 @@ def calculate_path_sum(g: BaseGraph[VT,ET]) -> complex:
     variable_dict : Dict[VT,int] = dict()
     variables: List[int] = [] # Contains the phases of each of the variables
     czs = []
-    xors = dict()
+    xors: Dict[FrozenSet[int],int] = dict()
+    # First we find the phase gadgets: an axle without a phase, and a leaf
+    axles: Dict[VT,VT] = dict()
     for v in g.vertices():
-        if v in variable_dict: continue
-        if not phases[v]: continue #It is the axle of a phase gadget, ignore it
-        if g.vertex_degree(v) == 1: # Probably phase gadget
-            w = list(g.neighbors(v))[0]
-            if not phases[w]: # It is indeed a phase gadget
-                targets = set()
-                for t in g.neighbors(w):
-                    if t == v: continue
-                    if t not in variable_dict:
-                        variable_dict[t] = len(variables)
-                        phase_t = phases[t]
-                        if isinstance(phase_t, Poly):
-                            raise NotImplementedError("Symbolic phases not supported")
-                        variables.append(int(float(phase_t*4)))
-                    targets.add(variable_dict[t])
-                prefactor += len(targets)-1
-                phase_v = phases[v]
-                if isinstance(phase_v, Poly):
-                    raise NotImplementedError("Symbolic phases not supported")
-                xors[frozenset(targets)] = int(float(phase_v*4))
-                continue
+        if not phases[v] or g.vertex_degree(v) != 1: continue
+        w = list(g.neighbors(v))[0]
+        if phases[w] or w in axles or g.vertex_degree(w) == 1: continue
+        if any(t in axles for t in g.neighbors(w)): continue
+        axles[w] = v
+    leafs = set(axles.values())
+    # All the other spiders are variables
+    for v in g.vertices():
+        if v in axles or v in leafs: continue
         variable_dict[v] = len(variables)
         phase_v = phases[v]
         if isinstance(phase_v, Poly):
             raise NotImplementedError("Symbolic phases not supported")
         variables.append(int(float(phase_v*4)))
+    for w, v in axles.items():
+        targets = frozenset(variable_dict[t] for t in g.neighbors(w) if t != v)
+        prefactor += len(targets)-1
+        phase_v = phases[v]
+        if isinstance(phase_v, Poly):
+            raise NotImplementedError("Symbolic phases not supported")
+        xors[targets] = xors.get(targets, 0) + int(float(phase_v*4))
     verts = sorted(list(variable_dict.keys()), key=lambda x: variable_dict[x])
     n = len(verts)
     for i in range(n):
-- 
2.43.0


From 082004a1d1a41e2353e1585d5de540628b4d405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 86/92] fix: random congruences leave diagrams without a
 suitable subject alone

---
 pyzx/local_search/congruences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/local_search/congruences.py b/pyzx/local_search/congruences.py
index ee509b1..1aab801 100644
--- a/pyzx/local_search/congruences.py
+++ b/pyzx/local_search/congruences.py
@@ -147,6 +147,7 @@ def apply_rand_lc(g, weight_func=uniform_weights):
     """Applies local complementation to randomly selected spider"""
 
     lc_vs = [v for v in g.vertices() if is_lc_vertex(g, v)]
+    if not lc_vs: return # there is no suitable spider
     weights = weight_func(g, lc_vs)
     lc_v = np.random.choice(lc_vs, 1, p=weights)[0]
     lc_cong2(g, lc_v)
@@ -204,8 +205,8 @@ def pivot_cong(g, v1, v2):
 def apply_rand_pivot(g, weight_func=uniform_weights):
     """Applies pivoting to a randomly selected pair of connected spiders"""
 
-    # assumes len(candidates) != 0
     candidates = [e for e in g.edges() if is_pivot_edge(g, e)]
+    if not candidates: return # there is no suitable edge
     weights = weight_func(g, candidates)
     e_idx = np.random.choice(len(candidates), 1, p=weights)[0]
     e = candidates[e_idx]
-- 
2.43.0


From 1d4a201ed9f10e391f27c9f44bfce1dd6472873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:36 +0000
Subject: [PATCH 87/92] fix: diagrams without an extractable circuit have
 infinite complexity

---
 pyzx/local_search/scores.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzx/local_search/scores.py b/pyzx/local_search/scores.py
index c31653b..c8bcbe0 100644
--- a/pyzx/local_search/scores.py
+++ b/pyzx/local_search/scores.py
@@ -40,13 +40,17 @@ def wgc(c, two_qb_weight=10):
 # Weighted gate count of a ZX-diagram
 def g_wgc(g, two_qb_weight=10, g_simplify=False, c_simplify=True):
     """A measure of the complexity of the circuit obtained from a a ZX-diagram
-    upon extraction using the above measure of circuit complexity"""
+    upon extraction using the above measure of circuit complexity. The complexity is
+    infinite when no circuit can be extracted."""
 
     g_tmp = g.copy()
     if g_simplify:
         full_reduce(g_tmp)
 
-    c = extract_circuit(g_tmp).to_basic_gates()
+    try:
+        c = extract_circuit(g_tmp).to_basic_gates()
+    except Exception: # a pivot may leave a diagram from which no circuit can be extracted
+        return float('inf')
 
     if c_simplify:
         c = basic_optimization(c)
-- 
2.43.0


From c2a6a95b5edd32408cad5548a5f12566df6a67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:04 +0000
Subject: [PATCH 88/92] fix: to_gh and to_rg leave the self-loops of
 multigraphs alone

---
 pyzx/simplify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 73a6db6..c2b72e4 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -284,6 +284,8 @@ def to_gh(g: BaseGraph[VT,ET],quiet:bool=True) -> None:
         if ty[v] == VertexType.X:
             g.set_type(v, VertexType.Z)
             for e in g.incident_edges(v):
+                source, target = g.edge_st(e)
+                if source == target: continue # the Hadamards on both ends of a self-loop cancel
                 et = g.edge_type(e)
                 g.set_edge_type(e, toggle_edge(et))
 
@@ -303,6 +305,8 @@ def to_rg(g: BaseGraph[VT,ET], select:Optional[Callable[[VT],bool]]=None) -> Non
         if select(v) and vertex_is_zx(ty[v]):
             g.set_type(v, toggle_vertex(ty[v]))
             for e in g.incident_edges(v):
+                source, target = g.edge_st(e)
+                if source == target: continue # the Hadamards on both ends of a self-loop cancel
                 g.set_edge_type(e, toggle_edge(g.edge_type(e)))
 
 def tcount(g: Union[BaseGraph[VT,ET], Circuit]) -> int:
-- 
2.43.0


From f65f70c980f89f08134ebb169c63efa9a464140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 89/92] fix: copies of gates do not share their lists of angles
 or targets

---
 pyzx/circuit/gates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 3ed203f..c641759 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -198,7 +198,10 @@ class Gate(object):
         return c@c2
 
     def copy(self: Tvar) -> Tvar:
-        return copy.copy(self)
+        g = copy.copy(self)
+        for a, val in vars(g).items():
+            if isinstance(val, list): setattr(g, a, list(val))
+        return g
 
     def to_adjoint(self: Tvar) -> Tvar:
         g = self.copy()
-- 
2.43.0


From d8c06837430b41dba336f5bf268ccbcb5fc5ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:36 +0000
Subject: [PATCH 90/92] fix: tensor, merge and sub-diagrams accept vertices
 without a position

---
 pyzx/graph/base.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index d901133..5ff73fe 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -338,13 +338,11 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         g.scalar.mult_with_scalar(other.scalar)
         g.variable_types.update(other.variable_types)
         ts = other.types()
-        qs = other.qubits()
         height = max((self.qubits().values()), default=0) + 1
-        rs = other.rows()
         phases = other.phases()
         vertex_map = dict()
         for v in other.vertices():
-            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],other.is_ground(v))
+            w = g.add_vertex(ts[v],other.qubit(v)+height,other.row(v),phases[v],other.is_ground(v))
             for k in other.vdata_keys(v):
                 g.set_vdata(w, k, other.vdata(v, k))
             vertex_map[v] = w
@@ -390,15 +388,13 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         Returns (list-of-vertices, list-of-edges) corresponding to
         the id's of the vertices and edges of the other graph."""
         ty = other.types()
-        rs = other.rows()
-        qs = other.qubits()
         phase = other.phases()
         grounds = other.grounds()
 
         vert_map = dict()
         edges = []
         for v in other.vertices():
-            w = self.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            w = self.add_vertex(ty[v],other.qubit(v),other.row(v),phase[v],v in grounds)
             for k in other.vdata_keys(v):
                 self.set_vdata(w, k, other.vdata(v, k))
             vert_map[v] = w
@@ -420,8 +416,6 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             g.set_auto_simplify(self._auto_simplify) # type: ignore
             # mypy issue https://github.com/python/mypy/issues/16413
         ty = self.types()
-        rs = self.rows()
-        qs = self.qubits()
         phase = self.phases()
         grounds = self.grounds()
 
@@ -430,7 +424,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         vert_map = dict()
         for v in verts:
-            w = g.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            w = g.add_vertex(ty[v],self.qubit(v),self.row(v),phase[v],v in grounds)
             for k in self.vdata_keys(v):
                 g.set_vdata(w, k, self.vdata(v, k))
             vert_map[v] = w
-- 
2.43.0


From 4e5b680b4e38bb15cbc35ccd2334c30286231383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:01 +0000
Subject: [PATCH 91/92] fix: extraction and the phase-polynomial rule accept
 vertices without a position

---
 pyzx/altextract.py |  8 +++-----
 pyzx/extract.py    |  6 ++----
 pyzx/rules.py      | 13 ++++++-------
 3 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/pyzx/altextract.py b/pyzx/altextract.py
index 606a0a7..3f6af3c 100644
--- a/pyzx/altextract.py
+++ b/pyzx/altextract.py
@@ -93,9 +93,7 @@ def alt_extract_circuit(
         optimize_cnots: (0,1,2,3) Level of CNOT optimization to apply.
         quiet: Whether to print detailed output of the extraction process.
     """
-    qs = g.qubits() # We are assuming that these are objects that update...
-    rs = g.rows()   # ...to reflect changes to the graph, so that when...
-    # ty = g.types()  # ... g.set_row/g.set_qubit is called, these things update directly to reflect that
+    # We are assuming that this is an object that updates to reflect changes to the graph
     phases = g.phases()
     c = Circuit(g.qubit_count())
 
@@ -172,8 +170,8 @@ def alt_extract_circuit(
                     continue
                 # We disconnect v from the input b via a new spider
                 b = [w for w in d if w in inputs][0]
-                q = qs[b]
-                r = rs[b]
+                q = g.qubit(b)
+                r = g.row(b)
                 w = g.add_vertex(VertexType.Z, q, r+1)
                 e = g.edge(v,b)
                 et = g.edge_type(e)
diff --git a/pyzx/extract.py b/pyzx/extract.py
index c029b66..0247775 100644
--- a/pyzx/extract.py
+++ b/pyzx/extract.py
@@ -544,8 +544,6 @@ def neighbors_of_frontier(g: BaseGraph[VT, ET], frontier: List[VT]) -> Set[VT]:
     If a frontier vertex is only connected to an input, it is removed from the frontier.
     If a frontier vertex is connected to an input and some other vertices, it is disconnected from the input via a new
     spider."""
-    qs = g.qubits()
-    rs = g.rows()
     neighbor_set = set()
     inputs = g.inputs()
     outputs = g.outputs()
@@ -557,8 +555,8 @@ def neighbors_of_frontier(g: BaseGraph[VT, ET], frontier: List[VT]) -> Set[VT]:
                 continue
             # We disconnect v from the input b via a new spider
             b = [w for w in d if w in inputs][0]
-            q = qs[b]
-            r = rs[b]
+            q = g.qubit(b)
+            r = g.row(b)
             w = g.add_vertex(VertexType.Z, q, r + 1)
             e = g.edge(v, b)
             et = g.edge_type(e)
diff --git a/pyzx/rules.py b/pyzx/rules.py
index 09d389d..746abaf 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -1067,7 +1067,6 @@ def match_gadgets_phasepoly(g: BaseGraph[VT,ET]) -> List[MatchPhasePolyType[VT]]
 def apply_gadget_phasepoly(g: BaseGraph[VT,ET], matches: List[MatchPhasePolyType[VT]]) -> None:
     """Uses the output of :func:`match_gadgets_phasepoly` to apply a rewrite based
     on rule R_13 of the paper *A Finite Presentation of CNOT-Dihedral Operators*."""
-    rs = g.rows()
     phases = g.phases()
     for group, gadgets in matches:
         for i in range(4):
@@ -1085,8 +1084,8 @@ def apply_gadget_phasepoly(g: BaseGraph[VT,ET], matches: List[MatchPhasePolyType
                         phase = -phase
                         g.set_phase(n,0)
                 else:
-                    n = g.add_vertex(VertexType.Z,-1, rs[v2]+0.5)
-                    v = g.add_vertex(VertexType.Z,-2, rs[v2]+0.5)
+                    n = g.add_vertex(VertexType.Z,-1, g.row(v2)+0.5)
+                    v = g.add_vertex(VertexType.Z,-2, g.row(v2)+0.5)
                     phase = 0
                     g.add_edges([(n,v),(v1,n),(v2,n)],EdgeType.HADAMARD)
                     g.scalar.add_power(1)
@@ -1103,8 +1102,8 @@ def apply_gadget_phasepoly(g: BaseGraph[VT,ET], matches: List[MatchPhasePolyType
                             phase = -phase
                             g.set_phase(n,0)
                     else:
-                        n = g.add_vertex(VertexType.Z,-1, rs[v3]+0.5)
-                        v = g.add_vertex(VertexType.Z,-2, rs[v3]+0.5)
+                        n = g.add_vertex(VertexType.Z,-1, g.row(v3)+0.5)
+                        v = g.add_vertex(VertexType.Z,-2, g.row(v3)+0.5)
                         phase = 0
                         g.add_edges([(n,v),(v1,n),(v2,n),(v3,n)],EdgeType.HADAMARD)
                         g.scalar.add_power(2)
@@ -1118,8 +1117,8 @@ def apply_gadget_phasepoly(g: BaseGraph[VT,ET], matches: List[MatchPhasePolyType
                 phase = -phase
                 g.set_phase(n,0)
         else:
-            n = g.add_vertex(VertexType.Z, -1, rs[group[0]]+0.5)
-            v = g.add_vertex(VertexType.Z, -2, rs[group[0]]+0.5)
+            n = g.add_vertex(VertexType.Z, -1, g.row(group[0])+0.5)
+            v = g.add_vertex(VertexType.Z, -2, g.row(group[0])+0.5)
             phase = 0
             g.add_edges([(n,v)]+[(n,w) for w in group],EdgeType.HADAMARD)
             g.scalar.add_power(3)
-- 
2.43.0


From 425dd1f6369e40c22b9aa240090958273249d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:28 +0000
Subject: [PATCH 92/92] fix: applying a diagram difference keeps parallel edges
 in multigraphs that simplify them

---
 pyzx/graph/diff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index eb167d7..52994e3 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -24,6 +24,7 @@ from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 from ..utils import VertexType, EdgeType, FractionLike, FloatInt
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
+from .multigraph import Multigraph
 from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_json, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
@@ -111,8 +112,12 @@ class GraphDiff(Generic[VT, ET]):
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
 				g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
+		# The recorded edges are added as they are, also where they are parallel
+		auto_simplify = isinstance(g, Multigraph) and g._auto_simplify
+		if isinstance(g, Multigraph): g.set_auto_simplify(False)
 		for st, ty in self.new_edges:
 			g.add_edge(st,ty)
+		if isinstance(g, Multigraph): g.set_auto_simplify(auto_simplify)
 
 		for v in self.changed_pos:
 			if v in self.new_verts: continue
-- 
2.43.0

